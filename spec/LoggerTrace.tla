---------------------------- MODULE LoggerTrace ----------------------------
EXTENDS Logger, TraceLib, TLC
VARIABLES run, i
tvars == <<lvars, made, written, accepted, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
Msg == [id |-> Ev.id, lvl |-> Ev.lvl, line |-> Ev.line, len |-> Ev.len, sum |-> Ev.sum]
TInit == /\ run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init"
         /\ Init0 /\ cap = Runs[run].h[1].cap /\ lvl = Runs[run].h[1].lvl /\ nlvl = lvl
         /\ made = 0 /\ written = 0 /\ accepted = 0
Gone == QuietOk /\ pend = {} /\ Ev.rest = 0 /\ Ev.fds = 0
TNext ==
  /\ UNCHANGED <<made, written, accepted, run>>
  /\ \/ /\ \/ Is("logS") /\ LogStart(Ev.t, Msg)
           \/ Is("logE") /\ LogEnd(Ev.t)
           \/ Is("out") /\ Ev.file = 1 /\ Write(Msg)
           \/ Is("lvlS") /\ SetStart(Ev.lvl)
           \/ Is("lvlE") /\ SetEnd
           \/ Is("flushS") /\ FlushStart
           \/ Is("flushE") /\ FlushEnd
           \/ Is("quiet") /\ QuietOk
           \/ Is("gone") /\ Gone
        /\ i' = i + 1
     \/ Internal /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
