--------------------------- MODULE TopologyTrace ---------------------------
EXTENDS Topology, Sequences, TraceLib, TLC
VARIABLES run, i
tvars == <<tpvars, run, i>>
H == Runs[run].h
Ev == H[i]
Is(e) == i <= Len(H) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ H[1].e = "init" /\ TpInit
TNext == UNCHANGED run /\ i' = i + 1 /\ (\/ Is("try") /\ Try(Ev.n)
                                         \/ Is("open") /\ Open(Ev.n, Ev.ok = 1, Ev.same = 1)
                                         \/ Is("damage") /\ Damage
                                         \/ Is("restored") /\ Restored
                                         \/ Is("put") /\ Ev.ok = 1 /\ PutAt(Ev.key, Ev.v, Ev.p)
                                         \/ Is("get") /\ Get(Ev.key, Ev.v))
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
=============================================================================
