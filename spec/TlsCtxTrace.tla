---------------------------- MODULE TlsCtxTrace ----------------------------
EXTENDS TlsCtx, TraceLib, TLC
VARIABLES run, i
tvars == <<ctxvars, run, i>>
H == Runs[run].h
Ev == H[i]
Is(n) == i <= Len(H) /\ Ev.e = n
TInit == run \in 1..Len(Runs) /\ i = 2 /\ H[1].e = "init" /\ CtxInit
Step == \/ Is("mk") /\ Ask([srv |-> Ev.srv, cert |-> Ev.cert, key |-> Ev.key, trust |-> Ev.trust, min |-> Ev.min, verify |-> Ev.verify, list |-> Ev.list, suites |-> Ev.suites, alpn |-> Ev.alpn, bad |-> Ev.bad])
        \/ Is("cnew") /\ NewCtx(Ev.c, Ev.srv)
        \/ Is("cx") /\ Setting(Ev.f, Ev.a, Ev.ok = 1)
        \/ Is("cfree") /\ FreeCtx(Ev.c)
        \/ Is("mkd") /\ Answer(Ev.ok = 1, Ev.v, Ev.c)
        \/ Is("drop") /\ Drop(Ev.c)
        \/ Is("assign") /\ Assign(Ev.a, Ev.b, Ev.how)
        \/ Is("assigned") /\ Assigned(Ev.now)
        \/ Is("done") /\ Settled
        \/ Is("end") /\ Over
TNext == UNCHANGED run /\ i' = i + 1 /\ Step
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
=============================================================================
