SPECIFICATION Spec
CONSTANTS
  Keys = {a, b}
  MaxOps = 5
  FileCap = 1
  MaxCompactions = 2
  MaxCrashes = 0
  Sync = FALSE
  Lazy = FALSE
  Faults = FALSE
  Reads = FALSE
  Mutant = "none"
SYMMETRY Same
INVARIANTS Indexed Holds Killable
CHECK_DEADLOCK FALSE
