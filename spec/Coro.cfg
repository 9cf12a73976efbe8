CONSTANTS Ids = {1, 2, 3} Callers <- TwoCallers
INIT MCInit
NEXT MCNext
INVARIANT InvAwaiterAlive
INVARIANT InvSingle
INVARIANT InvLazy
CHECK_DEADLOCK FALSE
