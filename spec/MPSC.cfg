CONSTANTS Producers = {1, 2} Consumer = 9 MaxPush = 3 MaxPop = 4 Caps = {2, 4}
SPECIFICATION MCSpec
INVARIANT InvBound
INVARIANT InvOnce
INVARIANT InvOrder
CHECK_DEADLOCK FALSE
