SPECIFICATION Spec
CONSTANTS Sims = {1, 2} Cells = {1, 2, 3} Steps = 2 Barrier = TRUE Private = FALSE
INVARIANTS Function Verdict Written SameUnlessFailing
CHECK_DEADLOCK FALSE
