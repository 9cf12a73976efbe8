------------------------------- MODULE Codec -------------------------------
(* Framing of a stored entry (C22): checksum (CRC32C of the payload, four    *)
(* bytes), length of the payload (eight bytes), payload; least significant   *)
(* byte first. 32 bit numbers are pairs <<high, low>> of 16 bits.            *)
EXTENDS Naturals, Sequences, Bitwise
Header == 12
Poly == <<33526, 15224>>   \* 0x82F63B78, reflected
Xor2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Half(c) == <<c[1] \div 2, (c[2] \div 2) + (c[1] % 2) * 32768>>
Bit(c) == IF c[2] % 2 = 1 THEN Xor2(Half(c), Poly) ELSE Half(c)
RECURSIVE Bits(_, _)
Bits(c, n) == IF n = 0 THEN c ELSE Bits(Bit(c), n - 1)
Table == [b \in 0..255 |-> Bits(<<0, b>>, 8)]
ByteStep(T, c, b) == Xor2(T[(c[2] % 256) ^^ b], <<c[1] \div 256, (c[2] \div 256) + (c[1] % 256) * 256>>)
RECURSIVE CrcFrom(_, _, _, _, _)
CrcFrom(T, s, c, j, n) == IF j > n THEN c ELSE CrcFrom(T, s, ByteStep(T, c, s[j]), j + 1, n)
\* of s[a..n], as the four bytes stored
CrcBytes(T, s, a, n) == LET c == Xor2(CrcFrom(T, s, <<65535, 65535>>, a, n), <<65535, 65535>>) IN
                        <<c[2] % 256, c[2] \div 256, c[1] % 256, c[1] \div 256>>
\* a length that does not fit 24 bits is larger than any buffer here
Huge == 16777216
Length(s) == IF \E j \in 8..12 : s[j] # 0 THEN Huge ELSE s[5] + 256 * s[6] + 65536 * s[7]
(* what decoding a buffer gives: more is needed, the checksum is wrong, or there is a valid payload of some length *)
Decode(T, s) == IF Len(s) <= Header THEN <<"more", 0>>
                ELSE IF Length(s) > Len(s) - Header THEN <<"more", 0>>
                ELSE IF CrcBytes(T, s, Header + 1, Header + Length(s)) # SubSeq(s, 1, 4) THEN <<"bad", 0>>
                ELSE <<"valid", Header + Length(s)>>
=============================================================================
