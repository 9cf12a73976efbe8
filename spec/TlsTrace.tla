------------------------------ MODULE TlsTrace ------------------------------
EXTENDS Tls, TraceLib, TLC
VARIABLES run, i
tvars == <<tlsvars, run, i>>
H == Runs[run].h
Ev == H[i]
Is(n) == i <= Len(H) /\ Ev.e = n
TInit == run \in 1..Len(Runs) /\ i = 2 /\ H[1].e = "init" /\ TlsInit(H[1].tiny = 1)
Step == \/ Is("opened") /\ Opened(Ev.fd)
        \/ Is("closed") /\ Closed(Ev.fd)
        \/ Is("peer") /\ Peer(Ev.fd, Ev.ip, Ev.port)
        \/ Is("new") /\ New(Ev.s)
        \/ (Is("nonew") \/ Is("nofd")) /\ Refused
        \/ Is("setfd") /\ SetFd(Ev.s, Ev.fd)
        \/ Is("free") /\ Free(Ev.s)
        \/ Is("make") /\ Make(Ev.o, Ev.fd, Ev.role, Ev.ip, Ev.port)
        \/ Is("made") /\ Made(Ev.o, Ev.ok = 1, Ev.s)
        \/ Is("name") /\ Name(Ev.s, Ev.op, Ev.h, Ev.ok = 1)
        \/ Is("eng") /\ Engine(Ev.s, Ev.op, Ev.r, Ev.w, Ev.er, Ev.tx = 1, Ev.rx = 1, Ev.pd)
        \/ Is("req") /\ Request(Ev.u, Ev.k, Ev.fd, Ev.m, Ev.a)
        \/ Is("comp") /\ Complete(Ev.u, Ev.r)
        \/ Is("call") /\ Call(Ev.x, Ev.k, Ev.o, Ev.n, Ev.h, ToString(Ev.n))
        \/ Is("ret") /\ Ret(Ev.x, Ev.ok = 1, Ev.v, Ev.bs)
        \/ Is("obs") /\ Seen(Ev.o, Ev.done = 1, Ev.ktls = 1, Ev.fd, Ev.ip, Ev.port)
        \/ Is("mv") /\ Move(Ev.o, Ev.p)
        \/ Is("del") /\ Del(Ev.o)
        \/ Is("deld") /\ Deleted(Ev.o)
        \/ Is("stop") /\ Stop
        \/ Is("lcall") /\ Listen(Ev.ip, Ev.port, Ev.q)
        \/ Is("refuse") /\ Refuse(Ev.er)
        \/ Is("listen") /\ Opens(Ev.fd, Ev.q, Ev.er)
        \/ Is("bind") /\ Bind(Ev.fd, Ev.ip, Ev.port, Ev.fam, Ev.er)
        \/ Is("lret") /\ Listening(Ev.ok = 1, Ev.v)
        \/ (Is("cnew") \/ Is("cfree") \/ Is("cx") \/ Is("ldel")) /\ UNCHANGED tlsvars
        \/ Is("end") /\ Finished(Ev.left)
TNext == UNCHANGED run /\ i' = i + 1 /\ Step
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
