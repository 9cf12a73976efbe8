SPECIFICATION Spec
CONSTANTS
 NOps = 5
 Depth = 2
 Slots = 1
 Max = 3
 Mutant = "late"
INVARIANTS Sane RefuseOnlyFull NoLeak
CHECK_DEADLOCK FALSE
