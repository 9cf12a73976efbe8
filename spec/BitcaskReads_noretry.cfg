SPECIFICATION Spec
CONSTANTS
  Keys = {a, b}
  MaxOps = 4
  FileCap = 1
  MaxCompactions = 2
  MaxCrashes = 0
  Sync = FALSE
  Lazy = FALSE
  Faults = FALSE
  Reads = TRUE
  Mutant = "noretry"
SYMMETRY Same
INVARIANTS Indexed Holds Killable
CHECK_DEADLOCK FALSE
