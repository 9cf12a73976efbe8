SPECIFICATION Spec
CONSTANTS
  Keys = {a, b}
  MaxOps = 4
  FileCap = 1
  MaxCompactions = 1
  MaxCrashes = 1
  Sync = TRUE
  Lazy = FALSE
  Faults = FALSE
  Reads = FALSE
  Mutant = "blind"
SYMMETRY Same
INVARIANTS Indexed Holds Killable
CHECK_DEADLOCK FALSE
