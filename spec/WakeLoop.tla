------------------------------ MODULE WakeLoop ------------------------------
(* The hand-over protocol of a worker in the steps of the implementation: a     *)
(* thread pushes a coroutine and then adds to the wake-up counter; the worker    *)
(* sleeps in the kernel until an armed read of that counter completes, empties   *)
(* its queue, and arms the read again with its next submission.                  *)
(* Checked: every coroutine pushed is eventually run, in order, and refined.     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, N, Cap,
          WriteFirst,      \* mutant: add to the counter before pushing
          SkipIfBusy,      \* variant (also correct): no wake-up if the queue was not empty
          ArmOnce          \* mutant: read not armed again
VARIABLES pc, k, q, counter, armed, cqe, wpc, ran, sq
vars == <<pc, k, q, counter, armed, cqe, wpc, ran, sq>>
Init == /\ pc = [t \in Threads |-> IF WriteFirst THEN "pre" ELSE "push"] /\ k = [t \in Threads |-> 0] /\ q = <<>> /\ counter = 0
        /\ armed = TRUE /\ cqe = 0 /\ wpc = "wait" /\ ran = <<>> /\ sq = FALSE
More(t) == k[t] < N
Push(t) == /\ pc[t] = "push" /\ More(t) /\ Len(q) < Cap
           /\ q' = Append(q, <<t, k[t]>>)
           /\ LET fin == [pc EXCEPT ![t] = "push"]
                  wr == [pc EXCEPT ![t] = "write"]
              IN IF WriteFirst \/ (SkipIfBusy /\ q # <<>>) THEN pc' = [pc EXCEPT ![t] = IF WriteFirst THEN "pre" ELSE "push"] /\ k' = [k EXCEPT ![t] = @ + 1]
                 ELSE pc' = wr /\ UNCHANGED k
           /\ UNCHANGED <<counter, armed, cqe, wpc, ran, sq>>
Write(t) == /\ pc[t] = "write" /\ counter' = counter + 1 /\ pc' = [pc EXCEPT ![t] = "push"] /\ k' = [k EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<q, armed, cqe, wpc, ran, sq>>
PreWrite(t) == /\ WriteFirst /\ pc[t] = "pre" /\ More(t) /\ counter' = counter + 1 /\ pc' = [pc EXCEPT ![t] = "push"]
               /\ UNCHANGED <<k, q, armed, cqe, wpc, ran, sq>>
(* kernel: the armed read takes the counter *)
Fire == /\ armed /\ counter > 0 /\ armed' = FALSE /\ counter' = 0 /\ cqe' = cqe + 1 /\ UNCHANGED <<pc, k, q, wpc, ran, sq>>
Submit == /\ wpc = "submit" /\ wpc' = "wait" /\ (IF sq THEN armed' = TRUE ELSE UNCHANGED armed) /\ sq' = FALSE /\ UNCHANGED <<pc, k, q, counter, cqe, ran>>
Wake == /\ wpc = "wait" /\ cqe > 0 /\ cqe' = cqe - 1 /\ wpc' = "drain" /\ UNCHANGED <<pc, k, q, counter, armed, ran, sq>>
Drain == /\ wpc = "drain"
         /\ IF q # <<>> THEN ran' = Append(ran, Head(q)) /\ q' = Tail(q) /\ UNCHANGED <<wpc, sq>>
            ELSE wpc' = "submit" /\ sq' = ~ArmOnce /\ UNCHANGED <<ran, q>>
         /\ UNCHANGED <<pc, k, counter, armed, cqe>>
Next == (\E t \in Threads : Push(t) \/ Write(t) \/ PreWrite(t)) \/ Fire \/ Submit \/ Wake \/ Drain
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllRun == <>[](Len(ran) = Cardinality(Threads) * N)
Order == \A a, b \in 1..Len(ran) : (a < b /\ ran[a][1] = ran[b][1]) => ran[a][2] < ran[b][2]
Once == \A a, b \in 1..Len(ran) : ran[a] = ran[b] => a = b
===========================================================================
