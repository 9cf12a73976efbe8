CONSTANTS Alpha = {92, 34, 10, 110, 32} MaxLen = 2 Ids = {1, 2, 3} Scrapes = {1, 2}
SPECIFICATION MCSpec
INVARIANT InvAsk
CHECK_DEADLOCK FALSE
