---------------------------- MODULE MetricsTrace ----------------------------
EXTENDS Metrics, TraceLib
VARIABLES run, i
tvars == <<xvars, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ XInit
Conv(x) == [j \in 1..Len(x) |-> [f |-> x[j].f, bits |-> x[j].bits, labels |-> {x[j].labels[k] : k \in 1..Len(x[j].labels)}]]
TNext == /\ i' = i + 1 /\ UNCHANGED run
         /\ \/ Is("regS") /\ RegStart(Ev.c)
            \/ Is("regE") /\ RegEnd(Ev.c)
            \/ Is("scrapeS") /\ ScrapeStart(Ev.s)
            \/ Is("collect") /\ Collect(Ev.s, Ev.c, Ev.fams, Conv(Ev.samples), Ev.thr = 1)
            \/ Is("scrapeE") /\ ScrapeEnd(Ev.s, Ev.thr = 1, Ev.text, Ev.nums)
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
