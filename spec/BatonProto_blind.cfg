SPECIFICATION Spec
CONSTANTS
 Waits = 3
 Mutant = "blind"
INVARIANTS NoStray Truthful
PROPERTY Ends
CHECK_DEADLOCK FALSE
