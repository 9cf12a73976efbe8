------------------------------ MODULE BatonProto ------------------------------
(* The baton's algorithm: one atomic state word, a hand-over queue, and for timed  *)
(* waits a timer whose completion is awaited before the wait is over.             *)
EXTENDS Naturals, FiniteSets
CONSTANTS Waits, Mutant   \* Mutant: "none" | "nocas" (timer resumes without claiming) | "leave" (does not wait for the timer) | "blind" (suspend without compare)
VARIABLES word, n, k, pc, timer, posted, res, bad, timed
vars == <<word, n, k, pc, timer, posted, res, bad, timed>>
(* word: "no" | "set" | "wait"; n: notifier pc; k: current wait; pc: waiter; timer: per wait "off"|"armed"|"cancel"|"fired"; *)
(* posted: number of hand-overs queued; timed[k]: is wait k timed *)
Init == /\ word = "no" /\ n = "start" /\ k = 1 /\ pc = "begin" /\ timer = [w \in 1..Waits |-> "off"] /\ posted = 0
        /\ res = [w \in 1..Waits |-> "none"] /\ bad = FALSE /\ timed \in [1..Waits -> BOOLEAN]
(* notifier *)
Swap == n = "start" /\ word' = "set" /\ n' = (IF word = "wait" THEN "post" ELSE "done") /\ UNCHANGED <<k, pc, timer, posted, res, bad, timed>>
Post == n = "post" /\ posted' = posted + 1 /\ n' = "done" /\ UNCHANGED <<word, k, pc, timer, res, bad, timed>>
(* waiter, on its worker *)
Finish(v) == res' = [res EXCEPT ![k] = v] /\ (IF k < Waits THEN k' = k + 1 /\ pc' = "begin" ELSE pc' = "end" /\ UNCHANGED k)
Begin == /\ pc = "begin"
         /\ IF word = "set" THEN Finish("true") /\ UNCHANGED timer
            ELSE pc' = "suspend" /\ timer' = (IF timed[k] THEN [timer EXCEPT ![k] = "armed"] ELSE timer) /\ UNCHANGED <<k, res>>
         /\ UNCHANGED <<word, n, posted, bad, timed>>
Suspend == /\ pc = "suspend"
           /\ IF word = "no" \/ Mutant = "blind" THEN word' = "wait" /\ pc' = "asleep" ELSE pc' = "woken" /\ UNCHANGED word
           /\ UNCHANGED <<n, k, timer, posted, res, bad, timed>>
(* hand-over taken from the queue: resumes whoever is asleep *)
Wake == /\ posted > 0 /\ posted' = posted - 1 /\ pc \notin {"suspend"}
        /\ IF pc = "asleep" THEN pc' = "woken" /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED pc
        /\ UNCHANGED <<word, n, k, timer, res, timed>>
Woken == /\ pc = "woken"
         /\ IF ~timed[k] \/ timer[k] = "fired" THEN Finish("true") /\ UNCHANGED timer
            ELSE /\ timer' = [timer EXCEPT ![k] = "cancel"]
                 /\ IF Mutant = "leave" THEN Finish("true") ELSE pc' = "gone" /\ UNCHANGED <<k, res>>
         /\ UNCHANGED <<word, n, posted, bad, timed>>
(* a timer completion arrives: expired or cancelled *)
TimerDone(w) ==
  /\ timer[w] \in {"armed", "cancel"} /\ pc \notin {"suspend", "woken"}
  /\ timer' = [timer EXCEPT ![w] = "fired"]
  /\ IF w # k \/ pc \in {"begin", "end"} THEN bad' = TRUE /\ UNCHANGED <<word, pc, k, res>>     \* touches a finished wait
     ELSE IF timer[w] = "cancel" THEN Finish("true") /\ UNCHANGED <<word, bad>>
     ELSE IF word = "wait" \/ (Mutant = "nocas" /\ pc = "asleep") THEN word' = (IF word = "wait" THEN "no" ELSE word) /\ Finish("false") /\ UNCHANGED bad
     ELSE UNCHANGED <<word, pc, k, res, bad>>
  /\ UNCHANGED <<n, posted, timed>>
Next == Swap \/ Post \/ Begin \/ Suspend \/ Wake \/ Woken \/ \E w \in 1..Waits : TimerDone(w)
Fair == WF_vars(Post) /\ WF_vars(Begin) /\ WF_vars(Suspend) /\ WF_vars(Wake) /\ WF_vars(Woken) /\ (\A w \in 1..Waits : WF_vars(TimerDone(w))) /\ WF_vars(Swap)
Spec == Init /\ [][Next]_vars /\ Fair
NoStray == ~bad
Truthful == \A w \in 1..Waits : res[w] = "true" => n # "start"
Ends == <>(pc = "end")
==============================================================================
