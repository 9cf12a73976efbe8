-------------------------------- MODULE Resp --------------------------------
(* RESP framing as a function of the bytes at hand.  Parse returns the SET of  *)
(* admissible answers; it has one element except for inputs the protocol       *)
(* leaves open (leading zeros, unusual float spellings, bare CR or LF in a     *)
(* simple string, verbatim strings without format prefix).                     *)
EXTENDS Integers, Sequences, FiniteSets
CR == 13  LF == 10
More == [v |-> "more"]
Err(k) == [v |-> "err", k |-> k]                     \* k: "size", "depth", "other"
Frame(ty, n, cnt, p, m) == [v |-> "frame", ty |-> ty, n |-> n, cnt |-> cnt, ps |-> p, pn |-> m]
(* ps, pn: where the payload starts (relative to the frame, 0-based) and its length *)

Digit(c) == c >= 48 /\ c <= 57
(* index of the CR of the first CRLF at or after i, 0 if none *)
RECURSIVE FindCrlf(_, _)
FindCrlf(b, i) == IF i >= Len(b) THEN 0
                  ELSE IF b[i] = CR /\ b[i + 1] = LF THEN i
                  ELSE FindCrlf(b, i + 1)
AllDigits(s) == Len(s) > 0 /\ \A j \in 1..Len(s) : Digit(s[j])
RECURSIVE Strip0(_)
Strip0(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip0(Tail(s)) ELSE s
RECURSIVE NumV(_, _)
NumV(s, acc) == IF s = <<>> THEN acc ELSE NumV(Tail(s), acc * 10 + (Head(s) - 48))
BIG == 1000000000
NumVal(s) == LET t == Strip0(s) IN IF Len(t) > 9 THEN BIG ELSE NumV(t, 0)      \* large values saturate
MaxI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
MinI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
LexLe(a, b) == \/ a = b
               \/ \E j \in 1..Len(a) : a[j] < b[j] /\ \A l \in 1..(j - 1) : a[l] = b[l]
Fits(s, lim) == LET t == Strip0(s) IN Len(t) < 19 \/ (Len(t) = 19 /\ LexLe(t, lim))
Signed(s) == Len(s) > 0 /\ s[1] \in {43, 45}
Mag(s) == IF Signed(s) THEN Tail(s) ELSE s
Neg(s) == Len(s) > 0 /\ s[1] = 45
(* "yes": a number; "no": not one; "open": spelling the protocol leaves open *)
IntClass(s) == IF ~AllDigits(Mag(s)) THEN "no"
               ELSE IF ~Fits(Mag(s), IF Neg(s) THEN MinI64 ELSE MaxI64) THEN "no"
               ELSE IF Len(Strip0(Mag(s))) # Len(Mag(s)) THEN "open" ELSE "yes"
(* lengths and counts: unsigned decimal *)
LenClass(s) == IF ~AllDigits(Mag(s)) \/ ~Fits(Mag(s), MaxI64) THEN "no"
               ELSE IF Neg(s) /\ NumVal(Mag(s)) # 0 THEN "neg"
               ELSE IF Signed(s) \/ Len(Strip0(Mag(s))) # Len(Mag(s)) THEN "open" ELSE "yes"
BigClass(s) == IF AllDigits(Mag(s)) THEN "yes" ELSE "no"
BoolClass(s) == IF s \in {<<116>>, <<102>>} THEN "yes" ELSE "no"

Lower(s) == [j \in 1..Len(s) |-> IF s[j] >= 65 /\ s[j] <= 90 THEN s[j] + 32 ELSE s[j]]
INF == <<105, 110, 102>>
NAN == <<110, 97, 110>>
IndexOf(s, C) == IF \E j \in 1..Len(s) : s[j] \in C THEN CHOOSE j \in 1..Len(s) : s[j] \in C /\ \A l \in 1..(j - 1) : s[l] \notin C ELSE 0
DigitsOrEmpty(s) == \A j \in 1..Len(s) : Digit(s[j])
(* mantissa and exponent of a decimal float *)
FloatShape(s) ==
  LET m == Mag(s)
      e == IndexOf(m, {69, 101})
      man == IF e = 0 THEN m ELSE SubSeq(m, 1, e - 1)
      ex == IF e = 0 THEN <<48>> ELSE SubSeq(m, e + 1, Len(m))
      d == IndexOf(man, {46})
      ip == IF d = 0 THEN man ELSE SubSeq(man, 1, d - 1)
      fp == IF d = 0 THEN <<>> ELSE SubSeq(man, d + 1, Len(man))
      loose == DigitsOrEmpty(ip) /\ DigitsOrEmpty(fp) /\ Len(ip) + Len(fp) > 0 /\ AllDigits(Mag(ex))
      strict == loose /\ Len(ip) > 0 /\ (d = 0 \/ Len(fp) > 0) /\ Len(ip) <= 30 /\ Len(fp) <= 30 /\ Len(Mag(ex)) <= 2
  IN IF strict THEN "yes" ELSE IF loose THEN "open" ELSE "no"
DoubleClass(s) == IF s \in {INF, <<43>> \o INF, <<45>> \o INF, NAN} THEN "yes"
                  ELSE LET l == Lower(Mag(s)) IN
                       IF Len(l) >= 3 /\ SubSeq(l, 1, 3) \in {INF, NAN} THEN "open"
                       ELSE FloatShape(s)

Verdict(class, f) == CASE class = "yes" -> {f} [] class = "no" -> {Err("other")} [] OTHER -> {f, Err("other")}
Simple == {43, 45}   Bulk == {36, 33, 61}   Agg == {42, 37, 126, 62, 124}   Pairs == {37, 124}
LineTypes == {58, 35, 44, 40, 95} \cup Simple

RECURSIVE Parse(_, _, _, _, _)
RECURSIVE Kids(_, _, _, _, _, _)
(* b: bytes, p: position of the frame's first byte (1-based), d: depth, lim: bulk limit, mx: depth limit *)
Parse(b, p, d, lim, mx) ==
  IF d > mx THEN IF p > Len(b) THEN {Err("depth"), More} ELSE {Err("depth")}
  ELSE IF p > Len(b) THEN {More}
  ELSE LET c == FindCrlf(b, p) ty == b[p] IN
  IF c = 0 THEN (IF ty \in LineTypes \cup Bulk \cup Agg THEN {More} ELSE {More, Err("other")})
  ELSE LET s == SubSeq(b, p + 1, c - 1)
           n == c + 2 - p
           line == Frame(ty, n, 0, 1, n - 3)
       IN
  CASE ty = 58 -> Verdict(IntClass(s), line)
    [] ty = 35 -> Verdict(BoolClass(s), line)
    [] ty = 44 -> Verdict(DoubleClass(s), line)
    [] ty = 40 -> Verdict(BigClass(s), line)
    [] ty = 95 -> Verdict(IF s = <<>> THEN "yes" ELSE "no", line)
    [] ty \in Simple -> Verdict(IF \E j \in 1..Len(s) : s[j] \in {CR, LF} THEN "open" ELSE "yes", line)
    [] ty \in Bulk ->
         LET k == LenClass(s) IN
         IF k = "no" THEN {Err("other")}
         ELSE IF k = "neg" THEN IF NumVal(Mag(s)) = 1 THEN (IF ty = 36 /\ Len(s) = 2 THEN {Frame(ty, n, 0, 0, 0)} ELSE {Frame(ty, n, 0, 0, 0), Err("other")})
                                ELSE {Err("other")}
         ELSE LET len == NumVal(Mag(s))
                  more == IF len > lim THEN {Err("size")}
                          ELSE IF Len(b) < p - 1 + n + len + 2
                               THEN {More} \cup (IF Len(b) = p - 1 + n + len + 1 /\ b[Len(b)] # CR THEN {Err("other")} ELSE {})
                          ELSE IF b[p + n + len] = CR /\ b[p + n + len + 1] = LF
                               THEN {Frame(ty, n + len + 2, 0, n, len)} \cup
                                    (IF ty = 61 /\ ~(len >= 4 /\ b[p + n + 3] = 58) THEN {Err("other")} ELSE {})
                               ELSE {Err("other")}
              IN more \cup (IF k = "open" THEN {Err("other")} ELSE {})
    [] ty \in Agg ->
         LET k == LenClass(s) IN
         IF k \in {"no", "neg"} THEN {Err("other")}
         ELSE LET cnt == NumVal(Mag(s))
                  m == IF ty \in Pairs THEN (IF cnt >= BIG THEN BIG ELSE 2 * cnt) ELSE cnt
                  sub == Kids(b, p + n, m, d + 1, lim, mx)
              IN {IF r.v = "frame" THEN Frame(ty, r.n - p + 1, cnt, 0, 0) ELSE r : r \in sub}
                 \cup (IF k = "open" THEN {Err("other")} ELSE {})
    [] OTHER -> {Err("other")}
(* m frames one after the other from q; the record's n is the last byte's index *)
Kids(b, q, m, d, lim, mx) ==
  IF m = 0 THEN {[v |-> "frame", n |-> q - 1]}
  ELSE UNION {IF r.v = "frame" THEN Kids(b, q + r.n, m - 1, d, lim, mx) ELSE {r} : r \in Parse(b, q, d, lim, mx)}

Final(r) == r.v # "more"
---------------------------------------------------------------------------
(* Framing machine: bytes are fed, frames are taken from the front. *)
VARIABLES buf, off, memo, lim, mx
(* memo: off -> the verdict reached there, shared by all ways of feeding the same stream *)
rvars == <<buf, off, memo, lim, mx>>
Feed(d) == buf' = buf \o d /\ UNCHANGED <<off, memo, lim, mx>>
(* the parser's answer r (error kinds as reported) *)
Agrees(r, full) == \E x \in Parse(buf, 1, 0, lim, mx) :
                     /\ x.v = r.v
                     /\ r.v = "err" => (x.k = r.k \/ (x.k = "other"))
                     /\ r.v = "frame" => x = r
Answer(r, full) == /\ Agrees(r, full)
                   /\ IF r.v = "more" THEN ~(\E e \in memo : e.off = off /\ e.upto <= Len(buf) + off) /\ UNCHANGED memo
                      ELSE /\ \A e \in memo : e.off = off => e.full = full
                           /\ memo' = {e \in memo : e.off # off} \cup
                                      {[off |-> off, full |-> full,
                                        upto |-> IF \E e \in memo : e.off = off /\ e.upto < Len(buf) + off
                                                 THEN (CHOOSE e \in memo : e.off = off).upto ELSE Len(buf) + off]}
                   /\ UNCHANGED <<buf, off, lim, mx>>
Consume(n) == /\ n <= Len(buf) /\ buf' = SubSeq(buf, n + 1, Len(buf)) /\ off' = off + n /\ UNCHANGED <<memo, lim, mx>>
Restart == buf' = <<>> /\ off' = 0 /\ UNCHANGED <<memo, lim, mx>>
---------------------------------------------------------------------------
(* The framing function itself: verdicts are never revised by later bytes.   *)
CONSTANTS Tokens, MaxTok
VARIABLES s, prev, ntok
mvars == <<buf, off, memo, lim, mx, s, prev, ntok>>
MInit == s = <<>> /\ prev = <<>> /\ ntok = 0 /\ buf = <<>> /\ off = 0 /\ memo = {} /\ lim \in {0, 2} /\ mx \in {0, 1}
MNext == /\ ntok < MaxTok /\ \E t \in Tokens : prev' = s /\ s' = s \o t
         /\ ntok' = ntok + 1 /\ UNCHANGED rvars
MSpec == MInit /\ [][MNext]_mvars
Stable == LET A == Parse(prev, 1, 0, lim, mx) B == Parse(s, 1, 0, lim, mx) IN
          /\ {r \in A : Final(r)} \subseteq B
          /\ (\A r \in A : Final(r)) => A = B
          /\ \A r \in B : r.v = "frame" => r.n <= Len(s)
TypeOk == Parse(s, 1, 0, lim, mx) # {}
(* every valid value is one frame covering exactly its encoding, whatever follows, and no strict prefix is a frame *)
CRLF == <<13, 10>>
Dig(n) == <<48 + n>>
Leaf == {<<43>> \o x \o CRLF : x \in {<<>>, <<97>>, <<97, 98>>}} \cup {<<58, 45, 49>> \o CRLF, <<95>> \o CRLF, <<35, 116>> \o CRLF,
         <<44, 49, 46, 53>> \o CRLF, <<40, 49, 50>> \o CRLF, <<36, 45, 49>> \o CRLF}
        \cup {<<36>> \o Dig(Len(x)) \o CRLF \o x \o CRLF : x \in {<<>>, <<97>>, <<13, 10>>, <<10, 43>>}}
Node(E) == {<<42>> \o Dig(0) \o CRLF, <<37>> \o Dig(0) \o CRLF} \cup {<<42>> \o Dig(1) \o CRLF \o a : a \in E}
           \cup {<<ty>> \o Dig(2) \o CRLF \o a \o b : ty \in {42, 126}, a \in E, b \in Leaf}
           \cup {<<37>> \o Dig(1) \o CRLF \o a \o b : a \in Leaf, b \in E}
Valid == Leaf \cup Node(Leaf) \cup Node({<<42, 49, 13, 10, 43, 97, 13, 10>>, <<37, 49, 13, 10, 95, 13, 10, 95, 13, 10>>})
ASSUME RoundTrip == \A v \in Valid : \A tail \in {<<>>, <<43>>, <<13, 10>>} :
                      \A r \in Parse(v \o tail, 1, 0, 100, 8) : r.v = "frame" /\ r.n = Len(v)
ASSUME NoEarly == \A v \in Valid : \A k \in 0..(Len(v) - 1) : Parse(SubSeq(v, 1, k), 1, 0, 100, 8) = {More}
===========================================================================
