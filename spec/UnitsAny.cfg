SPECIFICATION HSpec
CONSTANT MaxSteps = 3
CHECK_DEADLOCK FALSE
