SPECIFICATION MSpec
CONSTANT Mutant = "none"
INVARIANT Once Single Held Settled
CHECK_DEADLOCK FALSE
