---------------------------- MODULE FdCacheTrace ----------------------------
EXTENDS FdCache, TraceLib, TLC
VARIABLES run, i
tvars == <<cvars, run, i>>
H == Runs[run].h
Ev == H[i]
Is(e) == i <= Len(H) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ H[1].e = "init" /\ CInit(H[1].limit)
Logged == \/ Is("req") /\ Request(Ev.x, Ev.f)
          \/ Is("open") /\ Opened(Ev.f, Ev.fd)
          \/ Is("ofail") /\ NotOpened(Ev.f, Ev.code)
          \/ Is("got") /\ Counted(Ev) /\ Got(Ev.x, Ev.fd, Ev.hold = 1)
          \/ Is("fail") /\ Failed(Ev.x, Ev.code)
          \/ Is("rd") /\ Read(Ev.x, Ev.c)
          \/ Is("rel") /\ Release(Ev.x)
          \/ Is("rem") /\ Remove(Ev.f)
          \/ Is("clear") /\ Clear
          \/ Is("close") /\ Closed(Ev.fd)
          \/ Is("stat") /\ Counted(Ev) /\ Quiet
          \/ Is("quiet") /\ Counted(Ev) /\ pend = Empty /\ held = Empty /\ Quiet
          \/ Is("gone") /\ open = Empty /\ UNCHANGED cvars
TNext == UNCHANGED run /\ (\/ i' = i + 1 /\ Logged
                           \/ UNCHANGED i /\ i <= Len(H) /\ \E x \in DOMAIN pend : Insert(x))
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i) /\ CacheOK
Accepted == AllAccepted
=============================================================================
