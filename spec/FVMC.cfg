SPECIFICATION Spec
INVARIANTS Conservative UniformStays MirrorSymmetric Upwind Local NoNewExtrema Consistent
CHECK_DEADLOCK FALSE
