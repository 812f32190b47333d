SPECIFICATION MSpec
INVARIANT Convex
CHECK_DEADLOCK FALSE
