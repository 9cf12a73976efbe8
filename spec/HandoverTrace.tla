--------------------------- MODULE HandoverTrace ---------------------------
EXTENDS Handover, TraceLib, TLC
VARIABLES run, i
tvars == <<hvars, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ HInit(Runs[run].h[1].cap, Runs[run].h[1].nw)
TNext == /\ UNCHANGED run
         /\ \/ /\ i' = i + 1
               /\ \/ Is("post") /\ Post(Ev.c, Ev.t, Ev.w)
                  \/ Is("run") /\ Run(Ev.c, Ev.t, Ev.w)
                  \/ Is("sameS") /\ SameS(Ev.c, Ev.t, Ev.w)
                  \/ Is("sameE") /\ SameE(Ev.c, Ev.t, Ev.w)
                  \/ Is("sleep") /\ Sleep(Ev.c, Ev.t)
                  \/ Is("woke") /\ Ev.ok = 1 /\ Woke(Ev.c, Ev.t, Ev.w)
                  \/ Is("done") /\ Done(Ev.c)
                  \/ Is("ready") /\ Ready(Ev.w, Ev.t)
                  \/ Is("quiet") /\ Quiet
            \/ \E k \in 1..Len(q) : Drop(k) /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
