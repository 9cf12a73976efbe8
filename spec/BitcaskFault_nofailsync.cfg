SPECIFICATION Spec
CONSTANTS
  Keys = {a, b}
  MaxOps = 3
  FileCap = 1
  MaxCompactions = 2
  MaxCrashes = 1
  Sync = TRUE
  Lazy = FALSE
  Faults = TRUE
  Reads = FALSE
  Mutant = "nofailsync"
SYMMETRY Same
INVARIANTS Indexed Holds Killable
CHECK_DEADLOCK FALSE
