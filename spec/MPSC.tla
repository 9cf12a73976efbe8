------------------------------- MODULE MPSC -------------------------------
(* The bounded multi-producer single-consumer queue as its users see it.   *)
(* A push claims a place (that is its position in the FIFO) and publishes  *)
(* its element there; a pop takes the published element at the front and   *)
(* gives the place back a little later.  Everything between a call's start *)
(* and its end is an internal step.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Producers, Consumer, MaxPush, MaxPop, Caps
NONE == 0

VARIABLES cap, q, held, pend, got
(* q    : claimed places in order, each [v, pub]                           *)
(* held : places taken by a pop that has not given them back               *)
(* pend : thread -> its call in progress                                   *)
(* got  : values taken, for the invariants                                 *)
vars == <<cap, q, held, pend, got>>
Threads == Producers \cup {Consumer}
Idle == [op |-> "none", v |-> NONE, ph |-> "idle", ok |-> 0]

Init0 == q = <<>> /\ held = 0 /\ pend = [t \in Threads |-> Idle] /\ got = <<>>

PushStart(t, v) == /\ pend[t].op = "none"
                   /\ pend' = [pend EXCEPT ![t] = [op |-> "push", v |-> v, ph |-> "begun", ok |-> 0]]
                   /\ UNCHANGED <<cap, q, held, got>>
Claim(t) == /\ pend[t].op = "push" /\ pend[t].ph = "begun"
            /\ Len(q) + held < cap
            /\ q' = Append(q, [v |-> pend[t].v, pub |-> FALSE])
            /\ pend' = [pend EXCEPT ![t].ph = "claimed"]
            /\ UNCHANGED <<cap, held, got>>
Publish(t) == /\ pend[t].op = "push" /\ pend[t].ph = "claimed"
              /\ \E i \in 1..Len(q) : /\ q[i].v = pend[t].v /\ ~q[i].pub
                                      /\ q' = [q EXCEPT ![i].pub = TRUE]
              /\ pend' = [pend EXCEPT ![t].ph = "done", ![t].ok = 1]
              /\ UNCHANGED <<cap, held, got>>
Refuse(t) == /\ pend[t].op = "push" /\ pend[t].ph = "begun"
             /\ Len(q) + held = cap
             /\ pend' = [pend EXCEPT ![t].ph = "done", ![t].ok = 0]
             /\ UNCHANGED <<cap, q, held, got>>
PushEnd(t, ok) == /\ pend[t].op = "push" /\ pend[t].ph = "done" /\ pend[t].ok = ok
                  /\ pend' = [pend EXCEPT ![t] = Idle]
                  /\ UNCHANGED <<cap, q, held, got>>

PopStart(t) == /\ pend[t].op = "none"
               /\ pend' = [pend EXCEPT ![t] = [op |-> "pop", v |-> NONE, ph |-> "begun", ok |-> 0]]
               /\ UNCHANGED <<cap, q, held, got>>
Take(t) == /\ pend[t].op = "pop" /\ pend[t].ph = "begun"
           /\ q # <<>> /\ Head(q).pub
           /\ q' = Tail(q) /\ held' = held + 1
           /\ pend' = [pend EXCEPT ![t].ph = "taken", ![t].v = Head(q).v, ![t].ok = 1]
           /\ got' = Append(got, Head(q).v)
           /\ UNCHANGED cap
GiveBack(t) == /\ pend[t].op = "pop" /\ pend[t].ph = "taken"
               /\ held' = held - 1
               /\ pend' = [pend EXCEPT ![t].ph = "done"]
               /\ UNCHANGED <<cap, q, got>>
(* empty: nothing left, or the push at the front is still in progress      *)
Empty(t) == /\ pend[t].op = "pop" /\ pend[t].ph = "begun"
            /\ (q = <<>>) \/ (q # <<>> /\ ~Head(q).pub)
            /\ pend' = [pend EXCEPT ![t].ph = "done", ![t].ok = 0]
            /\ UNCHANGED <<cap, q, held, got>>
PopEnd(t, ok, v) == /\ pend[t].op = "pop" /\ pend[t].ph = "done" /\ pend[t].ok = ok
                    /\ ok = 1 => pend[t].v = v
                    /\ pend' = [pend EXCEPT ![t] = Idle]
                    /\ UNCHANGED <<cap, q, held, got>>
Internal(t) == Claim(t) \/ Publish(t) \/ Refuse(t) \/ Take(t) \/ GiveBack(t) \/ Empty(t)

---------------------------------------------------------------------------
(* closed system for model checking: producers push distinct values        *)
VARIABLES pushes, pops
mcvars == <<cap, q, held, pend, got, pushes, pops>>
MCInit == Init0 /\ cap \in Caps /\ pushes = [p \in Producers |-> 0] /\ pops = 0
MCNext ==
  \/ \E p \in Producers : /\ pushes[p] < MaxPush
                          /\ PushStart(p, p * 10 + pushes[p])
                          /\ pushes' = [pushes EXCEPT ![p] = @ + 1] /\ UNCHANGED pops
  \/ /\ pops < MaxPop /\ PopStart(Consumer) /\ pops' = pops + 1 /\ UNCHANGED pushes
  \/ \E t \in Threads : Internal(t) /\ UNCHANGED <<pushes, pops>>
  \/ \E t \in Threads, ok \in {0, 1} : (PushEnd(t, ok) \/ PopEnd(t, ok, pend[t].v)) /\ UNCHANGED <<pushes, pops>>
MCSpec == MCInit /\ [][MCNext]_mcvars

Values(s) == {s[i].v : i \in 1..Len(s)}
InvBound == Len(q) + held <= cap
InvOnce == /\ \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
           /\ \A i \in 1..Len(got) : got[i] \notin Values(q)
InvOrder == \A i, j \in 1..Len(got) : (i < j /\ got[i] \div 10 = got[j] \div 10) => got[i] < got[j]
===========================================================================
