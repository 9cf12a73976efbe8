CONSTANTS MaxTok = 5
Tokens <- ByteTokens
SPECIFICATION MSpec
INVARIANT Stable
INVARIANT TypeOk
CHECK_DEADLOCK FALSE
