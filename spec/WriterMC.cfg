SPECIFICATION MCSpec
CONSTANTS
    Locking = TRUE
    Noticing = TRUE
INVARIANTS Complete Earlier Survive Contained Emptied Placed Blocks Sorted
CHECK_DEADLOCK FALSE
