------------------------------ MODULE EventProto ------------------------------
(* The event's algorithm: a word that is empty, the head of a list of waiters, or  *)
(* "set"; a raise swaps it and hands the list over.                               *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS W, N, Mutant     \* Mutant: "none" | "store" (load, then store) | "push" (store instead of compare-and-swap) | "room1" (one hand-over per waiter, queue of one)
VARIABLES word, pc, old, npc, nl, q, woken
vars == <<word, pc, old, npc, nl, q, woken>>
Set == <<"set">>
Init == /\ word = <<>> /\ pc = [w \in W |-> "start"] /\ old = [w \in W |-> <<>>] /\ npc = [n \in N |-> "start"]
        /\ nl = [n \in N |-> <<>>] /\ q = <<>> /\ woken = [w \in W |-> 0]
Load(w) == /\ pc[w] = "start"
           /\ IF word = Set THEN pc' = [pc EXCEPT ![w] = "done"] /\ UNCHANGED old
              ELSE pc' = [pc EXCEPT ![w] = "cas"] /\ old' = [old EXCEPT ![w] = word]
           /\ UNCHANGED <<word, npc, nl, q, woken>>
Cas(w) == /\ pc[w] = "cas"
          /\ IF word = old[w] \/ Mutant = "push"
             THEN word' = <<w>> \o old[w] /\ pc' = [pc EXCEPT ![w] = "asleep"] /\ UNCHANGED old
             ELSE /\ UNCHANGED word
                  /\ IF word = Set THEN pc' = [pc EXCEPT ![w] = "done"] /\ UNCHANGED old
                     ELSE old' = [old EXCEPT ![w] = word] /\ UNCHANGED pc
          /\ UNCHANGED <<npc, nl, q, woken>>
Swap(n) == /\ npc[n] = "start"
           /\ IF Mutant = "store" THEN /\ npc' = [npc EXCEPT ![n] = "store"] /\ nl' = [nl EXCEPT ![n] = IF word = Set THEN <<>> ELSE word] /\ UNCHANGED word
              ELSE /\ word' = Set /\ nl' = [nl EXCEPT ![n] = IF word = Set THEN <<>> ELSE word] /\ npc' = [npc EXCEPT ![n] = "post"]
           /\ UNCHANGED <<pc, old, q, woken>>
Store(n) == npc[n] = "store" /\ word' = Set /\ npc' = [npc EXCEPT ![n] = "post"] /\ UNCHANGED <<pc, old, nl, q, woken>>
Post(n) == /\ npc[n] = "post"
           /\ IF Mutant = "room1"
              THEN /\ IF nl[n] = <<>> THEN npc' = [npc EXCEPT ![n] = "done"] /\ UNCHANGED <<q, nl>>
                      ELSE nl' = [nl EXCEPT ![n] = Tail(nl[n])] /\ q' = (IF Len(q) < 1 THEN Append(q, <<Head(nl[n])>>) ELSE q) /\ UNCHANGED npc
              ELSE npc' = [npc EXCEPT ![n] = "done"] /\ q' = (IF nl[n] = <<>> THEN q ELSE Append(q, nl[n])) /\ UNCHANGED nl
           /\ UNCHANGED <<word, pc, old, woken>>
Deliver == /\ q # <<>> /\ q' = Tail(q) /\ LET S == {Head(q)[j] : j \in 1..Len(Head(q))} IN
              /\ woken' = [w \in W |-> IF w \in S THEN woken[w] + 1 ELSE woken[w]]
              /\ pc' = [w \in W |-> IF w \in S THEN "done" ELSE pc[w]]
           /\ UNCHANGED <<word, old, npc, nl>>
Next == (\E w \in W : Load(w) \/ Cas(w)) \/ (\E n \in N : Swap(n) \/ Store(n) \/ Post(n)) \/ Deliver
Spec == Init /\ [][Next]_vars /\ (\A w \in W : WF_vars(Load(w)) /\ WF_vars(Cas(w))) /\ (\A n \in N : WF_vars(Swap(n) \/ Store(n) \/ Post(n))) /\ WF_vars(Deliver)
Once == \A w \in W : woken[w] <= 1
NotBefore == \A w \in W : woken[w] > 0 => \E n \in N : npc[n] # "start"
AllReleased == <>(\A w \in W : pc[w] = "done")
==============================================================================
