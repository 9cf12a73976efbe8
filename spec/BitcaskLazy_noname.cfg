SPECIFICATION Spec
CONSTANTS
  Keys = {a, b}
  MaxOps = 3
  FileCap = 1
  MaxCompactions = 1
  MaxCrashes = 1
  Sync = FALSE
  Lazy = TRUE
  Faults = FALSE
  Reads = FALSE
  Mutant = "noname"
SYMMETRY Same
INVARIANTS Indexed Holds Killable
CHECK_DEADLOCK FALSE
