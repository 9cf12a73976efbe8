SPECIFICATION Spec
CONSTANTS
 W = {w1, w2}
 S = {s1, s2}
 Mutant = "nowake"
INVARIANTS StopMeansDown ShutMeansOut
PROPERTIES CtorReturns StopReturns
CHECK_DEADLOCK FALSE
