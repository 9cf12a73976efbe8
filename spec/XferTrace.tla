------------------------------ MODULE XferTrace ------------------------------
EXTENDS Xfer, TraceLib, TLC
VARIABLES run, i
tvars == <<tr, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ XInit
TNext == /\ UNCHANGED run /\ i' = i + 1
         /\ \/ Is("call") /\ Call(Ev.x, Ev.k, Ev.pos = 1, Ev.n, Ev.off)
            \/ Is("issue") /\ Issue(Ev.x, Ev.at, Ev.len, Ev.str = 1, Ev.off)
            \/ Is("issin") /\ IssueIn(Ev.x, Ev.off, Ev.len)
            \/ Is("issout") /\ IssueOut(Ev.x, Ev.len)
            \/ Is("comp") /\ Comp(Ev.x, Ev.r)
            \/ Is("fail") /\ Fail(Ev.x, Ev.err)
            \/ Is("ret") /\ Ret(Ev.x, Ev.ok = 1, Ev.code, Ev.eof = 1)
            \/ Is("quiet") /\ Quiet
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
