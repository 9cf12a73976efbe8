---------------------------- MODULE DamageTrace ----------------------------
EXTENDS Damage, TraceLib, TLC
VARIABLES run, i
tvars == <<davars, run, i>>
H == Runs[run].h
Ev == H[i]
Is(e) == i <= Len(H) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ H[1].e = "init" /\ DaInit
F == {Ev.fs[j][1] : j \in 1..Len(Ev.fs)}
Of(f) == CHOOSE x \in {Ev.fs[j] : j \in 1..Len(Ev.fs)} : x[1] = f
Step == \/ Is("quiet") /\ UNCHANGED davars
        \/ Is("open") /\ Ev.ok = 1 /\ UNCHANGED davars
        \/ Is("compact") /\ Ev.ok = 1 /\ UNCHANGED davars
        \/ Is("put") /\ Ev.ok = 1 /\ Store(Ev.key, Ev.v)
        \/ Is("get") /\ Get(Ev.key, Ev.r)
        \/ Is("damage") /\ Damaged([f \in F |-> Of(f)[2]], [f \in F |-> Of(f)[3]])
TNext == UNCHANGED run /\ i' = i + 1 /\ Step
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
=============================================================================
