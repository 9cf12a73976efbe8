----------------------------- MODULE MPSCTrace -----------------------------
(* Accepts a recorded history of the real queue iff MPSC explains it.      *)
EXTENDS MPSC, TraceLib
VARIABLES run, i
tvars == <<cap, q, held, pend, got, pushes, pops, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
Adv == i' = i + 1 /\ UNCHANGED <<run, pushes, pops>>
TInit == /\ run \in 1..Len(Runs) /\ i = 2
         /\ Runs[run].h[1].e = "init"
         /\ cap = Runs[run].h[1].cap
         /\ Init0 /\ pushes = <<>> /\ pops = 0
EndOk == /\ Is("end") /\ Ev.live = 0       \* every element ever made was destroyed exactly once
         /\ \A t \in Threads : pend[t] = Idle
         /\ UNCHANGED <<cap, q, held, pend, got>>
TNext ==
  \/ Is("pushS") /\ PushStart(Ev.t, Ev.v) /\ Adv
  \/ Is("pushE") /\ PushEnd(Ev.t, Ev.ok) /\ Adv
  \/ Is("popS") /\ PopStart(Ev.t) /\ Adv
  \/ Is("popE") /\ PopEnd(Ev.t, Ev.ok, Ev.v) /\ Adv
  \/ EndOk /\ Adv
  \/ \E t \in Threads : Internal(t) /\ UNCHANGED <<run, i, pushes, pops>>
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
