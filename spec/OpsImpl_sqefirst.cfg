SPECIFICATION Spec
CONSTANTS
 NOps = 5
 Depth = 2
 Slots = 1
 Max = 2
 Mutant = "sqefirst"
INVARIANTS Sane RefuseOnlyFull NoLeak
CHECK_DEADLOCK FALSE
