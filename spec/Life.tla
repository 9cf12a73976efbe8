-------------------------------- MODULE Life --------------------------------
(* Life cycle of workers and of a pool of them, as seen from outside.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES n, th, bad, cb, stop, down, fds
lvars == <<n, th, bad, cb, stop, down, fds>>
(* n: workers; th: threads that set up a ring; bad: threads on which something fatal happened (0: before any thread); *)
(* cb: worker -> thread, from its start-up callback; stop: workers asked to stop; down: reported shut down; *)
(* fds: descriptors acquired and not yet released *)
LInit(k) == n = k /\ th = {} /\ bad = {} /\ cb = <<>> /\ stop = {} /\ down = {} /\ fds = {}
Rest(x) == UNCHANGED x
Range(f) == {f[x] : x \in DOMAIN f}
Acquire(f) == f \notin fds /\ fds' = fds \cup {f} /\ UNCHANGED <<n, th, bad, cb, stop, down>>
Release(f) == f \in fds /\ fds' = fds \ {f} /\ UNCHANGED <<n, th, bad, cb, stop, down>>
Ring(t) == th' = th \cup {t} /\ t \notin Range(cb) /\ UNCHANGED <<n, bad, cb, stop, down, fds>>
Fault(t) == bad' = bad \cup {t} /\ UNCHANGED <<n, th, cb, stop, down, fds>>
(* the start-up callback: once per worker, on its own running thread *)
Callback(w, t) == /\ w \notin DOMAIN cb /\ t \in th /\ t \notin bad /\ t \notin Range(cb) /\ w \notin down
                  /\ cb' = [x \in DOMAIN cb \cup {w} |-> IF x = w THEN t ELSE cb[x]]
                  /\ UNCHANGED <<n, th, bad, stop, down, fds>>
(* a coroutine runs on worker w *)
Run(w, t) == w \in DOMAIN cb /\ cb[w] = t /\ t \notin bad /\ w \notin down /\ UNCHANGED lvars
Started == Cardinality((th \cup bad) \ {0})
(* all n workers reported ready: each is running on a thread of its own or has failed *)
ReadyAll == Started = n /\ UNCHANGED lvars
ReadyOne == Started >= 1 /\ UNCHANGED lvars
StopCall(W) == stop' = stop \cup W /\ UNCHANGED <<n, th, bad, cb, down, fds>>
(* shutdown is reported only after a request to stop or a failure *)
ShutRet(W) == /\ \A w \in W : w \in stop \/ (IF w \in DOMAIN cb THEN cb[w] \in bad ELSE bad # {})
              /\ down' = down \cup W /\ UNCHANGED <<n, th, bad, cb, stop, fds>>
(* making a pool fails only for a reason *)
MakeFails == bad # {} /\ UNCHANGED lvars
(* nothing more will happen: every worker that did not fail has had its callback *)
Idle == (\A t \in th \ bad : t \in Range(cb)) /\ UNCHANGED lvars
End == fds = {} /\ UNCHANGED lvars
===========================================================================
