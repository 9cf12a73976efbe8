----------------------------- MODULE CoroTrace -----------------------------
EXTENDS Coro, TraceLib, TLC
VARIABLES run, i
tvars == <<task, run, i>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == run \in 1..Len(Runs) /\ i = 2 /\ Runs[run].h[1].e = "init" /\ task = <<>>
MaxStack == 20000
TNext == /\ i' = i + 1 /\ UNCHANGED run
         /\ \/ Is("create") /\ Create(Ev.id)
            \/ Is("await") /\ Await(Ev.p, Ev.c)
            \/ Is("start") /\ Start(Ev.id)
            \/ Is("end") /\ End(Ev.id, <<Ev.how, Ev.what>>)
            \/ Is("resume") /\ Resume(Ev.p, Ev.c, <<Ev.how, Ev.what>>)
            \/ Is("drop") /\ Drop(Ev.id)
            \/ Is("dret") /\ DetachReturned(Ev.id)
            \/ Is("chain") /\ Ev.r = Ev.want /\ Ev.stack < MaxStack /\ UNCHANGED task
            \/ Is("fin") /\ AllGone /\ Ev.alive = 0 /\ Ev.blocks = 0 /\ UNCHANGED task
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
