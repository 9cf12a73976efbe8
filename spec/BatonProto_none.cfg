SPECIFICATION Spec
CONSTANTS
 Waits = 3
 Mutant = "none"
INVARIANTS NoStray Truthful
PROPERTY Ends
CHECK_DEADLOCK FALSE
