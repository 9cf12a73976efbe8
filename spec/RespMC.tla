------------------------------- MODULE RespMC -------------------------------
EXTENDS Resp
ByteTokens == {<<43>>, <<58>>, <<36>>, <<42>>, <<35>>, <<48>>, <<49>>, <<45>>, <<116>>, <<13>>, <<10>>}
LineTokens == {<<36, 49, 13, 10>>, <<36, 51, 13, 10>>, <<42, 49, 13, 10>>, <<37, 49, 13, 10>>, <<42, 50, 13, 10>>, <<97>>, <<13, 10>>, <<13>>,
               <<58, 49, 13, 10>>, <<95, 13, 10>>, <<43>>, <<58, 120, 13, 10>>, <<36, 48, 13, 10, 13, 10>>, <<61, 48, 49, 13, 10>>}
===========================================================================
