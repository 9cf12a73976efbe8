----------------------------- MODULE HttpTrace -----------------------------
EXTENDS Http, TraceLib, TLC
VARIABLES run, i
tvars == <<hvars, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init"
         /\ HInit(Runs[run].h[1].plan, Runs[run].h[1].texts, [k \in 1..Len(Runs[run].h[1].fails) |-> Runs[run].h[1].fails[k] = 1])
TNext == /\ UNCHANGED run /\ i' = i + 1
         /\ \/ Is("acc") /\ Accept(Ev.c)
            \/ Is("got") /\ Got(Ev.c, Ev.n)
            \/ Is("end") /\ End(Ev.c)
            \/ Is("collect") /\ Collect
            \/ Is("wr") /\ Wrote(Ev.c, Ev.n)
            \/ Is("werr") /\ WriteFailed(Ev.c)
            \/ Is("closed") /\ Closed(Ev.c, Ev.a)
            \/ Is("stop") /\ Stop
            \/ Is("quiet") /\ Quiet(Ev.conn)
            \/ Is("final") /\ Final(Ev.left)
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
