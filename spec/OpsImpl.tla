------------------------------ MODULE OpsImpl ------------------------------
(* How the worker keeps its books: a growing pool of slots, a submission ring,    *)
(* a kernel that completes in any order, a completion ring drained in batches.    *)
(* Checked to refine Ops; mutants show that the checks have teeth.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS NOps, Depth, Slots, Max, Mutant   \* Mutant: "none" | "sqefirst" | "early" | "late"
VARIABLES todo, free, size, owner, res, sq, kern, cq, phase, batch, cur, st, last, wt
vars == <<todo, free, size, owner, res, sq, kern, cq, phase, batch, cur, st, last, wt>>
A == INSTANCE Ops WITH depth <- Depth, max <- Max
IDs == 1..NOps
Init == /\ todo = NOps /\ free = 0..Slots - 1 /\ size = Slots /\ owner = [s \in {} |-> 0] /\ res = [s \in {} |-> 0]
        /\ sq = <<>> /\ kern = {} /\ cq = <<>> /\ phase = "run" /\ batch = 0 /\ cur = 0
        /\ st = <<>> /\ last = 0 /\ wt = {}
Fresh == NOps - todo + 1
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Grown == IF size + 1 > Max THEN Max ELSE size + 1
(* a coroutine running on the worker starts an operation (phase: user code before the loop, or inside a resumption) *)
CanGrow == free # {} \/ size < Max
Start == /\ todo > 0 /\ phase \in {"run", "resumed"} /\ last = 0
         /\ LET o == Fresh IN
            \/ /\ CanGrow /\ Len(sq) < Depth
               /\ \E s \in IF free # {} THEN free ELSE size..Grown - 1 :
                    /\ free' = (IF free # {} THEN free ELSE size..Grown - 1) \ {s}
                    /\ size' = IF free # {} THEN size ELSE Grown
                    /\ owner' = Set(owner, s, o) /\ sq' = Append(sq, <<o, s>>)
               /\ st' = A!Put(o, [s |-> "called", r |-> 0]) /\ wt' = {1} /\ todo' = todo - 1
               /\ UNCHANGED <<res, kern, cq, phase, batch, cur, last>>
            \/ /\ ~(CanGrow /\ Len(sq) < Depth)
               /\ st' = A!Put(o, [s |-> "called", r |-> 0]) /\ wt' = {1} /\ last' = o /\ todo' = todo - 1
               /\ sq' = IF Mutant = "sqefirst" /\ Len(sq) < Depth THEN Append(sq, <<o, 99>>) ELSE sq
               /\ UNCHANGED <<free, size, owner, res, kern, cq, phase, batch, cur>>
Refused == /\ last # 0 /\ st' = A!Del(last) /\ last' = 0
           /\ UNCHANGED <<todo, free, size, owner, res, sq, kern, cq, phase, batch, cur, wt>>
(* the loop submits one by one (one entry per step keeps refinement simple) *)
Submit == /\ phase \in {"run", "submit"} /\ last = 0
          /\ IF sq = <<>> THEN /\ phase' = "wait" /\ UNCHANGED <<sq, kern, st>>
             ELSE LET e == Head(sq) IN
                  /\ phase' = "submit" /\ sq' = Tail(sq) /\ kern' = kern \cup {e}
                  /\ st' = IF e[1] \in DOMAIN st THEN A!Put(e[1], [s |-> "sub", r |-> 0]) ELSE Set(st, e[1], [s |-> "stale", r |-> 0])
          /\ free' = IF Mutant = "early" /\ sq # <<>> THEN free \cup {Head(sq)[2]} ELSE free
          /\ UNCHANGED <<todo, size, owner, res, cq, batch, cur, last, wt>>
Complete == /\ \E e \in kern : \E r \in {-5, e[1]} :
                 /\ kern' = kern \ {e} /\ cq' = Append(cq, <<e[2], r>>)
                 /\ st' = A!Put(e[1], [s |-> "comp", r |-> r])
            /\ last = 0 /\ UNCHANGED <<todo, free, size, owner, res, sq, phase, batch, cur, last, wt>>
Batch == /\ phase \in {"wait"} \cup (IF Mutant = "late" THEN {} ELSE {"resumed"}) /\ last = 0
         /\ IF cq = <<>> THEN (phase = "resumed" \/ Mutant = "late") /\ phase' = "run" /\ UNCHANGED <<free, res, cq, cur>>
            ELSE LET c == Head(cq) IN
                 /\ phase' = "deliver" /\ cur' = c[1] /\ res' = Set(res, c[1], c[2]) /\ cq' = Tail(cq)
                 /\ free' = IF Mutant \in {"early", "late"} THEN free ELSE free \cup {c[1]}
         /\ UNCHANGED <<todo, size, owner, sq, kern, batch, st, last, wt>>
(* the coroutine reads its result first thing *)
Deliver == /\ phase = "deliver" /\ phase' = "resumed"
           /\ st' = IF owner[cur] \in DOMAIN st /\ st[owner[cur]] = [s |-> "comp", r |-> res[cur]] THEN A!Del(owner[cur]) ELSE Set(st, 0, [s |-> "mixed", r |-> 0])
           /\ free' = IF Mutant = "late" THEN free ELSE free
           /\ UNCHANGED <<todo, size, owner, res, sq, kern, cq, batch, cur, last, wt>>
(* "late": the slot is given back only when the coroutine suspends again *)
Suspend == /\ Mutant = "late" /\ phase = "resumed" /\ cur >= 0 /\ cur \notin free /\ last = 0
           /\ free' = free \cup {cur} /\ phase' = "wait" /\ UNCHANGED <<todo, size, owner, res, sq, kern, cq, batch, cur, st, last, wt>>
Next == Start \/ Refused \/ Submit \/ Complete \/ Batch \/ Deliver \/ Suspend
Spec == Init /\ [][Next]_vars
Sane == /\ \A o \in DOMAIN st : st[o].s \in {"called", "sub", "comp"}
        /\ Cardinality(DOMAIN st) <= Max + 1
RefuseOnlyFull == last = 0 \/ Cardinality(A!Unsub \ {last}) >= Depth - 1 \/ Cardinality(DOMAIN st \ {last}) >= Max
NoLeak == (st = <<>> /\ last = 0 /\ phase \in {"wait", "run"} /\ sq = <<>> /\ kern = {} /\ cq = <<>>) => Cardinality(free) = size
==========================================================================
