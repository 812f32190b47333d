SPECIFICATION Spec
INVARIANT Homogeneous
CONSTANT Floor = TRUE
CHECK_DEADLOCK FALSE
