----------------------------- MODULE EventTrace -----------------------------
EXTENDS Event, TraceLib, TLC
VARIABLES run, i
tvars == <<evars, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ EInit
TNext == /\ UNCHANGED run /\ i' = i + 1
         /\ \/ Is("nS") /\ NotifyS(Ev.b)
            \/ Is("nE") /\ NotifyE(Ev.b)
            \/ Is("owner") /\ Owner(Ev.t)
            \/ Is("wait") /\ Wait(Ev.x, Ev.b, Ev.t)
            \/ Is("ret") /\ Ret(Ev.x, Ev.t)
            \/ Is("set") /\ IsSet(Ev.b, Ev.v = 1)
            \/ Is("reset") /\ Reset(Ev.b)
            \/ Is("calm") /\ Calm
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
