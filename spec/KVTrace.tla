------------------------------- MODULE KVTrace -------------------------------
EXTENDS KV, TraceLib, TLC
VARIABLES run, i
tvars == <<kvvars, run, i>>
H == Runs[run].h
Ev == H[i]
Is(e) == i <= Len(H) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ H[1].e = "init" /\ KVInit(H[1].faults = 1, H[1].lazy = 1)
Other == {"disk", "fl", "sy", "ds", "rm", "cr", "stat", "cc", "cd", "opening"}
Uncertain == {k \in DOMAIN maybe : maybe[k] \ {Value(k)} # {}}
Candidates(k) == maybe[k] \cup {Value(k)}
\* one function per choice of what comes up
RECURSIVE Choices(_)
Choices(ks) == IF ks = {} THEN {Empty}
               ELSE LET k == CHOOSE x \in ks : TRUE
                        cs == Choices(ks \ {k}) IN {Put(c, k, v) : c \in cs, v \in Candidates(k)}
\* files <<identifier, entries>> in the order of their identifiers: the last entry of a key counts
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Entries(fs) == UNION {{<<fs[j][1], l, fs[j][2][l]>> : l \in 1..Len(fs[j][2])} : j \in 1..Len(fs)}
Before(a, b) == Lt(a[1], b[1]) \/ (a[1] = b[1] /\ a[2] < b[2])
Newest(fs) == {a \in Entries(fs) : \A b \in Entries(fs) : a[3][1] = b[3][1] => ~Before(a, b)}
Preset(fs) == [k \in {a[3][1] : a \in Newest(fs)} |-> LET a == CHOOSE b \in Newest(fs) : b[3][1] = k IN IF a[3][3] = 1 THEN 0 ELSE a[3][2]]
TNext == /\ UNCHANGED run
         /\ \/ /\ i' = i + 1
               /\ \/ Is("call") /\ Call(Ev.x, Ev.k, Ev.key, Ev.v)
                  \/ Is("ret") /\ Ret(Ev.x, Ev.ok = 1, Ev.v)
                  \/ Is("crash") /\ Crash
                  \/ Is("open") /\ Ev.ok = 1 /\ \E c \in Choices(Uncertain) : Reopen(c)
                  \/ Is("open") /\ Ev.ok = 0 /\ faulty /\ UNCHANGED kvvars
                  \/ Is("close") /\ (Ev.ok = 1 \/ faulty) /\ Close
                  \/ Is("sc") /\ SyncCall(Ev.x)
                  \/ Is("sd") /\ SyncRet(Ev.x, Ev.ok = 1)
                  \/ Is("preset") /\ Holding(Preset(Ev.fs))
                  \/ i <= Len(H) /\ Ev.e \in Other /\ UNCHANGED kvvars
            \/ i' = i /\ Is("ret") /\ \E x \in DOMAIN ops : Lin(x)      \* only as late as needed
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
