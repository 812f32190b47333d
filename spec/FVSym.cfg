SPECIFICATION Spec
INVARIANTS Scaled Displaced
CHECK_DEADLOCK FALSE
