CONSTANTS Producers = {1, 2, 3, 4} Consumer = 9 MaxPush = 0 MaxPop = 0 Caps = {2}
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
