SPECIFICATION MCSpec
INVARIANTS Accepted DecidedAlways Mismatch NoZero AllColumns
CHECK_DEADLOCK FALSE
