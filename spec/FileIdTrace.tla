---------------------------- MODULE FileIdTrace ----------------------------
EXTENDS FileId, TraceLib, TLC
VARIABLES run, i
tvars == <<fivars, run, i>>
H == Runs[run].h
Ev == H[i]
Is(e) == i <= Len(H) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ H[1].e = "init" /\ FInit(H[1].p)
TNext == UNCHANGED run /\ i' = i + 1 /\ (\/ Is("exist") /\ Exists(Ev.id)
                                         \/ Is("next") /\ Next(Ev.id)
                                         \/ Is("many") /\ Ev.inc = 1 /\ Next(Ev.id))
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
=============================================================================
