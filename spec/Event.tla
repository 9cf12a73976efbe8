------------------------------- MODULE Event -------------------------------
(* Broadcast events: any number of waiters, released by a raise.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES own, raised, sure, wt, must
evars == <<own, raised, sure, wt, must>>
(* own: owner's thread; raised: events a notify of which has started; sure: one has returned (since the last reset); *)
(* wt: waits [id, b, t]; must: waits that began while raised: they go on at once *)
EInit == own = {} /\ raised = {} /\ sure = {} /\ wt = {} /\ must = {}
Free(t) == ~\E x \in must : x.t = t
NotifyS(b) == raised' = raised \cup {b} /\ UNCHANGED <<own, sure, wt, must>>
NotifyE(b) == b \in raised /\ sure' = sure \cup {b} /\ UNCHANGED <<own, raised, wt, must>>
Owner(t) == own' = {t} /\ own \subseteq {t} /\ UNCHANGED <<raised, sure, wt, must>>
Wait(id, b, t) == /\ Free(t) /\ ~\E x \in wt : x.id = id
                  /\ LET x == [id |-> id, b |-> b, t |-> t] IN
                     wt' = wt \cup {x} /\ must' = IF b \in sure THEN must \cup {x} ELSE must
                  /\ UNCHANGED <<own, raised, sure>>
Ret(id, t) == /\ \E x \in wt : /\ x.id = id /\ x.b \in raised
                               /\ (x \in must => x.t = t) /\ (x \notin must => Free(t))
                               /\ t \in own \cup {x.t}
                               /\ wt' = wt \ {x} /\ must' = must \ {x}
              /\ UNCHANGED <<own, raised, sure>>
IsSet(b, v) == (v => b \in raised) /\ (~v => b \notin sure) /\ UNCHANGED evars
Reset(b) == (~\E x \in wt : x.b = b) /\ raised' = raised \ {b} /\ sure' = sure \ {b} /\ UNCHANGED <<own, wt, must>>
Calm == (\A x \in wt : x.b \notin sure) /\ must = {} /\ UNCHANGED evars
===========================================================================
