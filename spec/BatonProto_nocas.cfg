SPECIFICATION Spec
CONSTANTS
 Waits = 3
 Mutant = "nocas"
INVARIANTS NoStray Truthful
PROPERTY Ends
CHECK_DEADLOCK FALSE
