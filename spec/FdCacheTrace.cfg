SPECIFICATION TSpec
CONSTANT NoFd = NoFd
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
