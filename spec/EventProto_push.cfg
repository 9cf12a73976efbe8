SPECIFICATION Spec
CONSTANTS
 W = {w1, w2, w3}
 N = {n1, n2}
 Mutant = "push"
INVARIANTS Once NotBefore
PROPERTY AllReleased
CHECK_DEADLOCK FALSE
