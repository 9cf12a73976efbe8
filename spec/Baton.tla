------------------------------- MODULE Baton -------------------------------
(* One-shot signals, each with at most one waiter at a time.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES own, max, raised, first, wt
bvars == <<own, max, raised, first, wt>>
(* own: owner's thread ({} unknown); raised: batons some notify() of which has started since the last reset; *)
(* first[b]: times at which a notify() returned; wt: pending waits [id, b, dl] (dl < 0: no limit) *)
BInit(m) == own = {} /\ max = m /\ raised = {} /\ first = {} /\ wt = {}
Bind(t) == own \subseteq {t} /\ own' = {t}
NotifyS(b) == raised' = raised \cup {b} /\ UNCHANGED <<own, max, first, wt>>
NotifyE(b, now) == b \in raised /\ first' = first \cup {<<b, now>>} /\ UNCHANGED <<own, max, raised, wt>>
Sure(b) == \E x \in first : x[1] = b
Wait(id, b, dl) == /\ ~\E x \in wt : x.id = id \/ x.b = b
                   /\ wt' = wt \cup {[id |-> id, b |-> b, dl |-> dl]} /\ UNCHANGED <<own, max, raised, first>>
(* resumed once, on the owner's thread, after the signal *)
RetTrue(id, t) == /\ Bind(t) /\ \E x \in wt : x.id = id /\ x.b \in raised /\ wt' = wt \ {x}
                  /\ UNCHANGED <<max, raised, first>>
(* expired: its time is over, and the signal had not been raised before that *)
RetFalse(id, t, now) == /\ Bind(t)
                        /\ \E x \in wt : /\ x.id = id /\ x.dl >= 0 /\ now >= x.dl
                                         /\ ~\E y \in first : y[1] = x.b /\ y[2] < x.dl
                                         /\ wt' = wt \ {x}
                        /\ UNCHANGED <<max, raised, first>>
(* the owner had no room for another timer *)
RetFail(id, t) == /\ Bind(t) /\ \E x \in wt : x.id = id /\ x.dl >= 0 /\ Cardinality({y \in wt \ {x} : y.dl >= 0}) >= max /\ wt' = wt \ {x}
                  /\ UNCHANGED <<max, raised, first>>
IsReady(b, v) == (v => b \in raised) /\ (~v => ~Sure(b)) /\ UNCHANGED bvars
Reset(b) == (~\E x \in wt : x.b = b) /\ raised' = raised \ {b} /\ first' = {x \in first : x[1] # b} /\ UNCHANGED <<own, max, wt>>
(* nothing can happen without time passing: no signal has been lost *)
Calm == (\A x \in wt : ~Sure(x.b)) /\ UNCHANGED bvars
(* nor with time passing *)
Quiet(active) == (\A x \in wt : x.dl < 0 /\ ~Sure(x.b)) /\ active = 0 /\ UNCHANGED bvars
===========================================================================
