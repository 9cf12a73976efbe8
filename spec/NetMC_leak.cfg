SPECIFICATION MCSpec
CONSTANT Mutant = "leak"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
