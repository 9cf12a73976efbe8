SPECIFICATION Spec
CONSTANTS
 N = 4
 K = "s"
 P = TRUE
INVARIANTS TypeOK Prefix OkMeansAll
CHECK_DEADLOCK FALSE
