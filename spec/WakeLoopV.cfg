CONSTANTS Threads = {1, 2, 3} N = 2 Cap = 4 WriteFirst = FALSE SkipIfBusy = TRUE ArmOnce = FALSE
SPECIFICATION Spec
INVARIANT Order Once
PROPERTY AllRun
CHECK_DEADLOCK FALSE
