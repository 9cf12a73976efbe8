SPECIFICATION Spec
CONSTANTS
 K = 4
 Mutant = "early"
INVARIANTS Valid Stable
PROPERTIES Returns Released
CHECK_DEADLOCK FALSE
