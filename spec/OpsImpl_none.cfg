SPECIFICATION Spec
CONSTANTS
 NOps = 6
 Depth = 2
 Slots = 1
 Max = 3
 Mutant = "none"
INVARIANTS Sane RefuseOnlyFull NoLeak
CHECK_DEADLOCK FALSE
