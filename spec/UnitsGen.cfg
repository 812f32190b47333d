SPECIFICATION GSpec
CONSTANT MaxSteps = 5
CHECK_DEADLOCK FALSE
