SPECIFICATION MCSpec
INVARIANTS NoEffectOfInvalid ValidIsAccepted OnceAndOnlyOnce FailureReturned
CHECK_DEADLOCK FALSE
