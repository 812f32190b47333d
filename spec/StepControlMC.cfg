SPECIFICATION Spec
CONSTANTS
    Errors <- Err2
    Rejecting <- Rej
INVARIANTS Narrowing Accepted Refused
PROPERTY Terminates
CHECK_DEADLOCK FALSE
