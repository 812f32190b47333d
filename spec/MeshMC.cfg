SPECIFICATION Spec
CONSTANTS MaxEdge = 24 MaxWidth = 5 MaxCells = 14
INVARIANTS NoGapNoOverlap Increasing Midway SameWidth Covers ZeroDecided
CHECK_DEADLOCK FALSE
