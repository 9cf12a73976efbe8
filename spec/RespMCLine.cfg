CONSTANTS MaxTok = 5
Tokens <- LineTokens
SPECIFICATION MSpec
INVARIANT Stable
INVARIANT TypeOk
CHECK_DEADLOCK FALSE
