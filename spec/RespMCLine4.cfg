CONSTANTS MaxTok = 4
Tokens <- LineTokens
SPECIFICATION MSpec
INVARIANT Stable
INVARIANT TypeOk
CHECK_DEADLOCK FALSE
