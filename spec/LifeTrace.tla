----------------------------- MODULE LifeTrace -----------------------------
EXTENDS Life, TraceLib, TLC
VARIABLES run, i
tvars == <<lvars, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
All == 0..n - 1
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ LInit(Runs[run].h[1].n)
TNext == /\ UNCHANGED run /\ i' = i + 1
         /\ \/ Is("acq") /\ Acquire(Ev.f)
            \/ Is("rel") /\ Release(Ev.f)
            \/ Is("ring") /\ Ring(Ev.t)
            \/ Is("fault") /\ Fault(Ev.t)
            \/ Is("cb") /\ Callback(Ev.w, Ev.t)
            \/ Is("run") /\ Run(Ev.w, Ev.t)
            \/ Is("ready") /\ (IF Ev.w < 0 THEN ReadyAll ELSE ReadyOne)
            \/ Is("stop") /\ StopCall(IF Ev.w < 0 THEN All ELSE {Ev.w})
            \/ Is("shut") /\ ShutRet(IF Ev.w < 0 THEN All ELSE {Ev.w})
            \/ Is("nomake") /\ MakeFails
            \/ Is("idle") /\ Idle
            \/ Is("end") /\ End
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
