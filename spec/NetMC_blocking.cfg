SPECIFICATION MCSpec
CONSTANT Mutant = "blocking"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
