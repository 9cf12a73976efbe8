------------------------------ MODULE OpsTrace ------------------------------
EXTENDS Ops, TraceLib, TLC
VARIABLES run, i
tvars == <<ovars, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ OInit(Runs[run].h[1].depth, Runs[run].h[1].max)
TNext == /\ UNCHANGED run /\ i' = i + 1
         /\ \/ Is("call") /\ Call(Ev.o, Ev.t)
            \/ Is("sub") /\ Sub(Ev.o)
            \/ Is("comp") /\ Comp(Ev.o, Ev.r)
            \/ Is("ret") /\ Ret(Ev.o, Ev.r, Ev.t)
            \/ Is("refuse") /\ Refuse(Ev.o, Ev.t)
            \/ Is("quiet") /\ Quiet(Ev.active)
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
