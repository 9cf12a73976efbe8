CONSTANTS MaxLen = 4 MaxN = 2 ByteSet = {1, 2}
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
