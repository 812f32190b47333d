SPECIFICATION Spec
INVARIANT Homogeneous
CONSTANT Floor = FALSE
CHECK_DEADLOCK FALSE
