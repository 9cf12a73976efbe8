----------------------------- MODULE AnyTrace -----------------------------
EXTENDS Any, TraceLib, TLC
VARIABLES run, i
tvars == <<calls, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ AInit
TNext == /\ UNCHANGED run /\ i' = i + 1
         /\ \/ Is("any") /\ Call(Ev.a, Ev.n, Ev.t, Ev.o)
            \/ Is("start") /\ Start(Ev.a, Ev.k)
            \/ Is("fin") /\ Fin(Ev.a, Ev.k)
            \/ Is("gone") /\ Gone(Ev.a, Ev.k)
            \/ Is("ret") /\ Ret(Ev.a, Ev.k, Ev.t)
            \/ Is("quiet") /\ Quiet(Ev.leak)
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
