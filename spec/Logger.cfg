CONSTANTS Threads = {1, 2} Levels = {0, 1, 3} MaxMsgs = 2 Cap = 2
SPECIFICATION MCSpec
INVARIANT InvOrder
INVARIANT InvThread
INVARIANT InvBound
CHECK_DEADLOCK FALSE
