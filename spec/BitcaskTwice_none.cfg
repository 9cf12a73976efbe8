SPECIFICATION Spec
CONSTANTS
  Keys = {a, b}
  MaxOps = 4
  FileCap = 1
  MaxCompactions = 2
  MaxCrashes = 2
  Sync = TRUE
  Lazy = FALSE
  Faults = FALSE
  Reads = FALSE
  Mutant = "none"
SYMMETRY Same
INVARIANTS Indexed Holds Killable
CHECK_DEADLOCK FALSE
