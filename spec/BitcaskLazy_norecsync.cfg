SPECIFICATION Spec
CONSTANTS
  Keys = {a, b}
  MaxOps = 3
  FileCap = 1
  MaxCompactions = 1
  MaxCrashes = 2
  Sync = TRUE
  Lazy = FALSE
  Faults = FALSE
  Reads = FALSE
  Mutant = "norecsync"
SYMMETRY Same
INVARIANTS Indexed Holds Killable
CHECK_DEADLOCK FALSE
