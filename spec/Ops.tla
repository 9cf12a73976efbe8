-------------------------------- MODULE Ops --------------------------------
(* Asynchronous operations of one worker as a user sees them.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES depth, max, wt, st, last
(* wt: the worker's thread ({} unknown); st: op id -> "called"|"sub"|"comp" with result; last: op just called *)
ovars == <<depth, max, wt, st, last>>
OInit(d, m) == depth = d /\ max = m /\ wt = {} /\ st = <<>> /\ last = 0
Dom == DOMAIN st
Flight == Dom                          \* called, neither refused nor resumed
Unsub == {o \in Dom : st[o].s = "called"}
Put(o, v) == [x \in Dom \cup {o} |-> IF x = o THEN v ELSE st[x]]
Del(o) == [x \in Dom \ {o} |-> st[x]]
Bind(t) == wt \subseteq {t} /\ wt' = {t}
Call(o, t) == /\ o \notin Dom /\ Bind(t) /\ st' = Put(o, [s |-> "called", r |-> 0]) /\ last' = o /\ UNCHANGED <<depth, max>>
(* the kernel takes the request: exactly once, and never more at a time than the configured maximum *)
Sub(o) == /\ o \in Dom /\ st[o].s = "called" /\ Cardinality(Flight) <= max
          /\ st' = Put(o, [s |-> "sub", r |-> 0]) /\ last' = 0 /\ UNCHANGED <<depth, max, wt>>
Comp(o, r) == /\ o \in Dom /\ st[o].s = "sub" /\ st' = Put(o, [s |-> "comp", r |-> r]) /\ UNCHANGED <<depth, max, wt, last>>
(* the coroutine goes on with the result of its own operation *)
Ret(o, r, t) == /\ o \in Dom /\ st[o].s = "comp" /\ st[o].r = r /\ wt = {t} /\ st' = Del(o) /\ last' = 0 /\ UNCHANGED <<depth, max, wt>>
(* refused: at once, and only for want of room; the wake-up request may take one entry of the submission queue *)
Refuse(o, t) == /\ last = o /\ o \in Dom /\ st[o].s = "called" /\ wt = {t}
                /\ Cardinality(Unsub \ {o}) >= depth - 1 \/ Cardinality(Flight \ {o}) >= max
                /\ st' = Del(o) /\ last' = 0 /\ UNCHANGED <<depth, max, wt>>
Quiet(active) == Dom = {} /\ active = 0 /\ UNCHANGED ovars
===========================================================================
