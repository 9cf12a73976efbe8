CONSTANTS Threads = {} Levels = {} MaxMsgs = 0 Cap = 0
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
