------------------------------ MODULE AnyProto ------------------------------
(* The algorithm: each task claims the prize once, the winner raises the signal;   *)
(* the shared state is counted.  Checked against Any.                             *)
EXTENDS Naturals, FiniteSets
CONSTANTS K, Mutant      \* Mutant: "none" | "nothrow" (an exception skips the claim) | "last" (claim by plain store) | "early" (signal before the claim)
VARIABLES pc, winner, raised, refs, waiter, result, throws
vars == <<pc, winner, raised, refs, waiter, result, throws>>
T == 0..K - 1
Init == /\ pc = [t \in T |-> "run"] /\ winner = K /\ raised = FALSE /\ refs = K + 1 /\ waiter = "wait" /\ result = K /\ throws \in [T -> BOOLEAN]
Fin(t) == /\ pc[t] = "run"
          /\ pc' = [pc EXCEPT ![t] = IF throws[t] /\ Mutant = "nothrow" THEN "drop" ELSE IF Mutant = "early" THEN "sig0" ELSE "claim"]
          /\ UNCHANGED <<winner, raised, refs, waiter, result, throws>>
Early(t) == pc[t] = "sig0" /\ raised' = TRUE /\ pc' = [pc EXCEPT ![t] = "claim"] /\ UNCHANGED <<winner, refs, waiter, result, throws>>
Claim(t) == /\ pc[t] = "claim"
            /\ IF winner = K \/ Mutant = "last" THEN winner' = t /\ pc' = [pc EXCEPT ![t] = "signal"] ELSE pc' = [pc EXCEPT ![t] = "drop"] /\ UNCHANGED winner
            /\ UNCHANGED <<raised, refs, waiter, result, throws>>
Signal(t) == pc[t] = "signal" /\ raised' = TRUE /\ pc' = [pc EXCEPT ![t] = "drop"] /\ UNCHANGED <<winner, refs, waiter, result, throws>>
Drop(t) == pc[t] = "drop" /\ refs' = refs - 1 /\ pc' = [pc EXCEPT ![t] = "gone"] /\ UNCHANGED <<winner, raised, waiter, result, throws>>
Wake == waiter = "wait" /\ raised /\ waiter' = "ret" /\ result' = winner /\ refs' = refs - 1 /\ UNCHANGED <<pc, winner, raised, throws>>
Next == (\E t \in T : Fin(t) \/ Early(t) \/ Claim(t) \/ Signal(t) \/ Drop(t)) \/ Wake
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Valid == waiter = "ret" => result \in T /\ pc[result] \notin {"run"}
Stable == waiter = "ret" => result = winner
Returns == <>(waiter = "ret")
Released == <>(refs = 0)
=============================================================================
