SPECIFICATION Spec
CONSTANT MaxSteps = 6
INVARIANTS SameQuantity ThereAndBack Direct Coinciding
CHECK_DEADLOCK FALSE
