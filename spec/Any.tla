-------------------------------- MODULE Any --------------------------------
(* Waiting for the first of several tasks.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES calls
(* calls[a]: n tasks; st[k] "no" | "run" | "fin" (finished, not yet reported) | "gone"; late: tasks that cannot be *)
(* first any more, because another one was completely over before they finished; ret: returned; t: caller's thread, o: owner's *)
AInit == calls = <<>>
Put(a, v) == [x \in DOMAIN calls \cup {a} |-> IF x = a THEN v ELSE calls[x]]
Call(a, n, t, o) == a \notin DOMAIN calls /\ calls' = Put(a, [n |-> n, st |-> [k \in 0..n - 1 |-> "no"], late |-> {}, ret |-> FALSE, t |-> t, o |-> o])
Go(a, k, from, to) == a \in DOMAIN calls /\ calls[a].st[k] = from /\ calls' = Put(a, [calls[a] EXCEPT !.st[k] = to])
Start(a, k) == Go(a, k, "no", "run")
Fin(a, k) == /\ a \in DOMAIN calls /\ calls[a].st[k] = "run"
             /\ calls' = Put(a, [calls[a] EXCEPT !.st[k] = "fin", !.late = IF \E j \in DOMAIN calls[a].st : calls[a].st[j] = "gone" THEN @ \cup {k} ELSE @])
Gone(a, k) == Go(a, k, "fin", "gone")
(* the first to complete; it had completed; on the owner's thread (or without having suspended at all) *)
Ret(a, k, t) == /\ a \in DOMAIN calls /\ ~calls[a].ret /\ k \in DOMAIN calls[a].st
                /\ calls[a].st[k] \in {"fin", "gone"} /\ k \notin calls[a].late /\ t \in {calls[a].t, calls[a].o}
                /\ calls' = Put(a, [calls[a] EXCEPT !.ret = TRUE])
Quiet(leak) == /\ \A a \in DOMAIN calls : calls[a].ret /\ \A k \in DOMAIN calls[a].st : calls[a].st[k] = "gone"
               /\ leak = 0 /\ UNCHANGED calls
===========================================================================
