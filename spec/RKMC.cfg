SPECIFICATION Spec
INVARIANTS Conditions Difference Sharp TreeSizes
CHECK_DEADLOCK FALSE
