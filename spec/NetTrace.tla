------------------------------ MODULE NetTrace ------------------------------
EXTENDS Net, TraceLib
VARIABLES run, i
tvars == <<nvars, run, i>>
H == Runs[run].h
Ev == H[i]
Is(n) == i <= Len(H) /\ Ev.e = n
Table(t) == [h \in {t[k].h : k \in 1..Len(t)} |-> LET k == CHOOSE k \in 1..Len(t) : t[k].h = h IN [lit |-> t[k].lit = 1, as |-> t[k].as]]
TInit == run \in 1..Len(Runs) /\ i = 2 /\ H[1].e = "init" /\ NInit(Table(H[1].names))
B(x) == x = 1
C(c) == IF c.n = "populate" THEN [c EXCEPT !.known = B(c.known)] ELSE c
Step == \/ Is("ask") /\ Ask(C(Ev.c))
        \/ Is("lookup") /\ Lookup(Ev.h, B(Ev.ok))
        \/ Is("giveback") /\ Giveback
        \/ Is("sock") /\ Sock(Ev.fd, Ev.fam, B(Ev.nb))
        \/ Is("nosock") /\ NoSock(Ev.err)
        \/ Is("sys") /\ Ev.err # 0 /\ Refused(Ev.fd, Ev.err)
        \/ Is("sys") /\ Ev.err = 0 /\ Ev.n = "setsockopt" /\ SetOpt(Ev.fd, Ev.o, B(Ev.v))
        \/ Is("sys") /\ Ev.err = 0 /\ Ev.n = "bind" /\ Bind(Ev.fd, Ev.a)
        \/ Is("sys") /\ Ev.err = 0 /\ Ev.n = "fcntl" /\ SetFl(Ev.fd, B(Ev.v))
        \/ Is("sys") /\ Ev.err = 0 /\ Ev.n = "listen" /\ Listen(Ev.fd, Ev.v)
        \/ Is("close") /\ Close(Ev.fd)
        \/ Is("answer") /\ Answer([Ev.r EXCEPT !.ok = B(Ev.r.ok)])
        \/ Is("end") /\ Over
TNext == UNCHANGED run /\ i' = i + 1 /\ Step
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
=============================================================================
