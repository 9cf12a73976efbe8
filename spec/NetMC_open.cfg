SPECIFICATION MCSpec
CONSTANT Mutant = "open"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
