SPECIFICATION Spec
CONSTANTS
  Keys = {a, b}
  MaxOps = 5
  FileCap = 2
  MaxCompactions = 2
  MaxCrashes = 1
  Sync = TRUE
  Lazy = FALSE
  Faults = FALSE
  Reads = TRUE
  Mutant = "none"
SYMMETRY Same
INVARIANTS Indexed Holds Killable
CHECK_DEADLOCK FALSE
