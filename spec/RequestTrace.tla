---------------------------- MODULE RequestTrace ----------------------------
EXTENDS Request, TraceLib, TLC
VARIABLES run, i
tvars == <<rvars, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ RInit
TNext == /\ UNCHANGED run /\ i' = i + 1
         /\ \/ Is("call") /\ Call(Ev.x, Ev.c)
            \/ Is("sub") /\ Sub(Ev.u, Ev.s)
            \/ Is("comp") /\ Comp(Ev.u, Ev.r, Ev.alive = 1)
            \/ Is("ret") /\ Ret(Ev.x, Ev.ok = 1, Ev.v, Ev.code, Ev.cat, Ev.tot)
            \/ Is("quiet") /\ Quiet
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
