SPECIFICATION MCSpec
CONSTANT Mutant = "none"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
