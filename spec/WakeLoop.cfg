CONSTANTS Threads = {1, 2, 3} N = 2 Cap = 4 WriteFirst = FALSE SkipIfBusy = FALSE ArmOnce = FALSE
SPECIFICATION Spec
INVARIANT Order Once
PROPERTY AllRun
CHECK_DEADLOCK FALSE
