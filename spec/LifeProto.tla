------------------------------ MODULE LifeProto ------------------------------
(* The start/stop protocol: worker threads that may fail at any step, a pool      *)
(* constructor, concurrent stoppers, and the wake-up counter a sleeping worker    *)
(* waits for.  Checked for progress under fairness.                               *)
EXTENDS Naturals, FiniteSets
CONSTANTS W, S, Mutant      \* Mutant: "none" | "nosignal" (no signal on failure) | "nowake" | "early" (second stopper returns at once)
VARIABLES pc, ready, shut, stopreq, wake, ctor, sp, winner
vars == <<pc, ready, shut, stopreq, wake, ctor, sp, winner>>
Init == /\ pc = [w \in W |-> "new"] /\ ready = [w \in W |-> FALSE] /\ shut = [w \in W |-> FALSE]
        /\ stopreq = [w \in W |-> FALSE] /\ wake = [w \in W |-> FALSE] /\ ctor = "wait" /\ sp = [s \in S |-> "idle"] /\ winner = FALSE
Set(f, w, v) == f' = [f EXCEPT ![w] = v]
Setup(w) == pc[w] = "new" /\ Set(pc, w, "cb") /\ Set(ready, w, TRUE) /\ UNCHANGED <<shut, stopreq, wake, ctor, sp, winner>>
Cb(w) == pc[w] = "cb" /\ Set(pc, w, "loop") /\ UNCHANGED <<ready, shut, stopreq, wake, ctor, sp, winner>>
Check(w) == pc[w] = "loop" /\ Set(pc, w, IF stopreq[w] THEN "drain" ELSE "sleep") /\ UNCHANGED <<ready, shut, stopreq, wake, ctor, sp, winner>>
Awake(w) == pc[w] = "sleep" /\ wake[w] /\ Set(wake, w, FALSE) /\ Set(pc, w, "loop") /\ UNCHANGED <<ready, shut, stopreq, ctor, sp, winner>>
Drain(w) == pc[w] = "drain" /\ Set(pc, w, "done") /\ Set(shut, w, TRUE) /\ UNCHANGED <<ready, stopreq, wake, ctor, sp, winner>>
(* failure in start-up, callback or loop *)
Die(w) == /\ pc[w] \in {"new", "cb", "loop"} /\ Set(pc, w, "done")
          /\ IF Mutant = "nosignal" THEN UNCHANGED <<ready, shut>> ELSE Set(ready, w, TRUE) /\ Set(shut, w, TRUE)
          /\ UNCHANGED <<stopreq, wake, ctor, sp, winner>>
Ctor == ctor = "wait" /\ (\A w \in W : ready[w]) /\ ctor' = "done" /\ UNCHANGED <<pc, ready, shut, stopreq, wake, sp, winner>>
Stop(s) == /\ ctor = "done" /\ sp[s] = "idle"
           /\ IF winner THEN Set(sp, s, IF Mutant = "early" THEN "done" ELSE "wait") /\ UNCHANGED winner
              ELSE winner' = TRUE /\ Set(sp, s, "req")
           /\ UNCHANGED <<pc, ready, shut, stopreq, wake, ctor>>
Req(s) == /\ sp[s] = "req"
          /\ IF \E w \in W : ~stopreq[w]
             THEN \E w \in W : ~stopreq[w] /\ Set(stopreq, w, TRUE) /\ (IF Mutant = "nowake" THEN UNCHANGED wake ELSE Set(wake, w, TRUE)) /\ UNCHANGED sp
             ELSE Set(sp, s, "wait") /\ UNCHANGED <<stopreq, wake>>
          /\ UNCHANGED <<pc, ready, shut, ctor, winner>>
Wait(s) == sp[s] = "wait" /\ (\A w \in W : shut[w]) /\ Set(sp, s, "done") /\ UNCHANGED <<pc, ready, shut, stopreq, wake, ctor, winner>>
Prog(w) == Setup(w) \/ Cb(w) \/ Check(w) \/ Awake(w) \/ Drain(w)
Next == (\E w \in W : Prog(w) \/ Die(w)) \/ Ctor \/ \E s \in S : Stop(s) \/ Req(s) \/ Wait(s)
Spec == Init /\ [][Next]_vars /\ (\A w \in W : WF_vars(Prog(w))) /\ WF_vars(Ctor) /\ (\A s \in S : WF_vars(Stop(s) \/ Req(s) \/ Wait(s)))
StopMeansDown == \A s \in S : sp[s] = "done" => \A w \in W : shut[w]
ShutMeansOut == \A w \in W : shut[w] => pc[w] = "done"
CtorReturns == <>(ctor = "done")
StopReturns == <>(\A s \in S : sp[s] = "done")
=============================================================================
