SPECIFICATION MSpec
CONSTANT Mutant = "leak"
INVARIANT Once Single Held Settled
CHECK_DEADLOCK FALSE
