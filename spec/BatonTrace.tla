----------------------------- MODULE BatonTrace -----------------------------
EXTENDS Baton, TraceLib, TLC
VARIABLES run, i
tvars == <<bvars, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ BInit(Runs[run].h[1].max)
TNext == /\ UNCHANGED run /\ i' = i + 1
         /\ \/ Is("nS") /\ NotifyS(Ev.b)
            \/ Is("nE") /\ NotifyE(Ev.b, Ev.now)
            \/ Is("wait") /\ Wait(Ev.x, Ev.b, Ev.dl)
            \/ Is("true") /\ RetTrue(Ev.x, Ev.t)
            \/ Is("false") /\ RetFalse(Ev.x, Ev.t, Ev.now)
            \/ Is("fail") /\ RetFail(Ev.x, Ev.t)
            \/ Is("rdy") /\ IsReady(Ev.b, Ev.v = 1)
            \/ Is("reset") /\ Reset(Ev.b)
            \/ Is("calm") /\ Calm
            \/ Is("quiet") /\ Quiet(Ev.active)
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
