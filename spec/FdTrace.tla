------------------------------ MODULE FdTrace ------------------------------
EXTENDS Fd, TraceLib, TLC
VARIABLES run, i
tvars == <<fdvars, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ FdInit
TNext == /\ UNCHANGED run /\ i' = i + 1
         /\ \/ Is("opened") /\ Opened(Ev.fd)
            \/ Is("closed") /\ Closed(Ev.fd)
            \/ Is("use") /\ Used(Ev.fd)
            \/ Is("sys") /\ Sys(Ev.c)
            \/ Is("op") /\ Op(Ev.c)
            \/ Is("end") /\ End({<<Ev.g[k].k, Ev.g[k].fd>> : k \in 1..Len(Ev.g)}, Ev.r)
            \/ Is("own") /\ Own(Ev.k, Ev.fd)
            \/ Is("hand") /\ Hand(Ev.fd)
            \/ Is("drop") /\ Drop(Ev.k)
            \/ Is("dropped") /\ Dropped(Ev.k)
            \/ Is("askclose") /\ AskClose(Ev.fd)
            \/ Is("quiet") /\ Quiet
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
