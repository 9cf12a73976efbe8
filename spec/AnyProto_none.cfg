SPECIFICATION Spec
CONSTANTS
 K = 4
 Mutant = "none"
INVARIANTS Valid Stable
PROPERTIES Returns Released
CHECK_DEADLOCK FALSE
