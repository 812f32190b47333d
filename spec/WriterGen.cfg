SPECIFICATION GSpec
CONSTANTS
    Locking = TRUE
    Noticing = TRUE
CHECK_DEADLOCK FALSE
