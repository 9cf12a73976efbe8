SPECIFICATION Spec
CONSTANTS
 Waits = 3
 Mutant = "leave"
INVARIANTS NoStray Truthful
PROPERTY Ends
CHECK_DEADLOCK FALSE
