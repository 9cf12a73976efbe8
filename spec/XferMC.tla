------------------------------- MODULE XferMC -------------------------------
(* A straightforward implementation (loop until done) against Xfer: everything it *)
(* does is allowed, and what Xfer allows as success moved every byte exactly once. *)
EXTENDS Xfer
CONSTANTS N, K, P
VARIABLES dst, res, piped    \* dst: file positions delivered, in order
vars == <<tr, dst, res, piped>>
Off0 == 3
Init == XInit /\ dst = <<>> /\ res = "no" /\ piped = <<>>
Start == tr = <<>> /\ res = "no" /\ Call(1, K, P, N, Off0) /\ UNCHANGED <<dst, res, piped>>
C == tr[1]
Live == 1 \in DOMAIN tr
Do == /\ Live /\ C.fl = "no" /\ UNCHANGED <<dst, res, piped>>
      /\ IF K = "s" THEN \/ \E l \in 1..N, o \in 0..Off0 + N : IssueIn(1, o, l)
                         \/ \E l \in 1..N : IssueOut(1, l)
         ELSE \E l \in 1..N, o \in 0..Off0 + N, b \in 0..N, s \in BOOLEAN : Issue(1, b, l, s, o)
Kernel == /\ Live /\ C.fl # "no"
          /\ \E r \in -2..N :
               /\ r <= C.len /\ (C.fl = "out" => r <= Len(piped)) /\ Comp(1, r)
               /\ LET m == IF r > 0 THEN r ELSE 0 IN
                  IF C.fl = "in" THEN piped' = piped \o [j \in 1..m |-> Off0 + C.in + j - 1] /\ UNCHANGED dst
                  ELSE IF C.fl = "out" THEN dst' = dst \o SubSeq(piped, 1, m) /\ piped' = SubSeq(piped, m + 1, Len(piped))
                  ELSE dst' = dst \o [j \in 1..m |-> Off0 + C.in + j - 1] /\ UNCHANGED piped
          /\ UNCHANGED res
End == /\ Live /\ \E ok \in BOOLEAN, eof \in BOOLEAN, code \in 0..2 : Ret(1, ok, code, eof) /\ res' = IF ok THEN "ok" ELSE "err"
       /\ UNCHANGED <<dst, piped>>
Next == Start \/ Do \/ Kernel \/ End
Spec == Init /\ [][Next]_vars
Whole == [j \in 1..N |-> Off0 + j - 1]
Prefix == Len(dst) <= N /\ dst = SubSeq(Whole, 1, Len(dst))
OkMeansAll == res = "ok" => dst = Whole
=============================================================================
