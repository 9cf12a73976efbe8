SPECIFICATION Spec
CONSTANTS
 K = 4
 Mutant = "last"
INVARIANTS Valid Stable
PROPERTIES Returns Released
CHECK_DEADLOCK FALSE
