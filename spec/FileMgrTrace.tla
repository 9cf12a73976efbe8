---------------------------- MODULE FileMgrTrace ----------------------------
EXTENDS FileMgr, TraceLib, TLC
VARIABLES run, i
tvars == <<fvars, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ FInit({Runs[run].h[1].ws[k] : k \in 1..Len(Runs[run].h[1].ws)})
TNext == /\ UNCHANGED run /\ i' = i + 1
         /\ \/ Is("call") /\ Call(Ev.x, Ev.c)
            \/ Is("sub") /\ Sub(Ev.u, Ev.t, Ev.s)
            \/ Is("comp") /\ Comp(Ev.u, Ev.r)
            \/ Is("ret") /\ Ret(Ev.x, Ev.ok = 1, Ev.v, Ev.code)
            \/ Is("drop") /\ Drop(Ev.x)
            \/ Is("assign") /\ Assign(Ev.x, Ev.y)
            \/ Is("reset") /\ Reset(Ev.x, Ev.y)
            \/ Is("close") /\ Close(Ev.fd)
            \/ Is("quiet") /\ Quiet(Ev.open)
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
