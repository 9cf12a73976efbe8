CONSTANTS MaxLen = 4 MaxN = 2 ByteSet = {1, 2}
SPECIFICATION MCSpec
INVARIANT InvFifo
INVARIANT InvCounts
PROPERTY StepReject
CHECK_DEADLOCK FALSE
