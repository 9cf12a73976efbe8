SPECIFICATION Spec
CONSTANTS
 K = 4
 Mutant = "nothrow"
INVARIANTS Valid Stable
PROPERTIES Returns Released
CHECK_DEADLOCK FALSE
