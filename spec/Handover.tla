------------------------------ MODULE Handover ------------------------------
(* Coroutines handed over to workers.  Each worker has a bounded queue; what a   *)
(* thread hands over to a worker is run there once, in order, on its thread.     *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES cap, thr, q, where, inl
(* thr[w]: thread of worker w (0 unknown); q: entries [c, t, w] in hand-over order; *)
(* where[c]: <<w>> running on w, or asleep there; inl: threads inside a switch that must not suspend *)
hvars == <<cap, thr, q, where, inl>>
HInit(c, nw) == cap = c /\ thr = [w \in 0..nw - 1 |-> {}] /\ q = <<>> /\ where = {} /\ inl = {}
Bind(w, t) == /\ thr[w] \subseteq {t} /\ \A v \in DOMAIN thr : v = w \/ t \notin thr[v]
              /\ thr' = [thr EXCEPT ![w] = {t}]
Free(t) == ~\E x \in inl : x[1] = t
Leave(c) == where' = {x \in where : x[1] # c}
(* an entry at index k is next: nothing of the same thread for the same worker is before it *)
Next1(k) == \A j \in 1..k - 1 : q[j].t # q[k].t \/ q[j].w # q[k].w
Without(k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Occ(w) == Cardinality({k \in 1..Len(q) : q[k].w = w})
Post(c, t, w) == /\ Free(t) /\ ~\E k \in 1..Len(q) : q[k].c = c
                 /\ q' = Append(q, [c |-> c, t |-> t, w |-> w]) /\ Leave(c) /\ UNCHANGED <<cap, thr, inl>>
(* dropped: only possible while the worker's queue is full of others *)
Drop(k) == Occ(q[k].w) > cap /\ q' = Without(k) /\ UNCHANGED <<cap, thr, where, inl>>
Run(c, t, w) == /\ Free(t)
                /\ \E k \in 1..Len(q) : q[k].c = c /\ q[k].w = w /\ Next1(k) /\ q' = Without(k)
                /\ Bind(w, t) /\ where' = where \cup {<<c, w>>} /\ UNCHANGED <<cap, inl>>
SameS(c, t, w) == Free(t) /\ <<c, w>> \in where /\ inl' = inl \cup {<<t, c>>} /\ UNCHANGED <<cap, thr, q, where>>
SameE(c, t, w) == <<t, c>> \in inl /\ inl' = inl \ {<<t, c>>} /\ thr[w] = {t} /\ UNCHANGED <<cap, thr, q, where>>
Sleep(c, t) == Free(t) /\ (\E x \in where : x[1] = c) /\ UNCHANGED hvars
Woke(c, t, w) == Free(t) /\ <<c, w>> \in where /\ thr[w] = {t} /\ UNCHANGED hvars
Done(c) == (\E x \in where : x[1] = c) /\ Leave(c) /\ UNCHANGED <<cap, thr, q, inl>>
Ready(w, t) == Bind(w, t) /\ UNCHANGED <<cap, q, where, inl>>
Quiet == q = <<>> /\ inl = {} /\ where = {} /\ UNCHANGED hvars
===========================================================================
