SPECIFICATION GSpec
CONSTANTS
    Errors <- Err
    Rejecting <- Rej
CHECK_DEADLOCK FALSE
