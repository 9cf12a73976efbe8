SPECIFICATION Spec
CONSTANTS
 N = 4
 K = "r"
 P = TRUE
INVARIANTS TypeOK Prefix OkMeansAll
CHECK_DEADLOCK FALSE
