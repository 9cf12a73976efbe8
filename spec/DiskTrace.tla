------------------------------ MODULE DiskTrace ------------------------------
EXTENDS Disk, TraceLib, TLC
VARIABLES n,        \* since opening: [puts, gets, miss, dels, gone, act]
          due,      \* [on, sources, others] while a compaction runs and nothing else does
          run, i
tvars == <<dvars, n, due, run, i>>
H == Runs[run].h
Ev == H[i]
Is(e) == i <= Len(H) /\ Ev.e = e
Zero == [puts |-> 0, gets |-> 0, miss |-> 0, dels |-> 0, gone |-> 0, kinds |-> Empty, cc |-> {}, act |-> <<>>]
Off == [on |-> FALSE, src |-> {}, keep |-> {}]
Clean == H[1].faults = 0
TInit == /\ run \in 1..Len(Runs) /\ i = 2 /\ H[1].e = "init" /\ DInit(H[1].power = 1, H[1].lazy = 1)
         /\ n = Zero /\ due = Off
Kind(x) == n.kinds[x]
Counted == n' = (CASE Is("call") -> [n EXCEPT !.kinds = Put(@, Ev.x, Ev.k), !.gets = IF Ev.k = "get" THEN @ + 1 ELSE @, !.dels = IF Ev.k = "del" THEN @ + 1 ELSE @]
                   [] Is("ret") -> [n EXCEPT !.puts = IF Kind(Ev.x) = "put" /\ Ev.ok = 1 THEN @ + 1 ELSE @,
                                             !.miss = IF Kind(Ev.x) = "get" /\ Ev.ok = 1 /\ Ev.v = 0 THEN @ + 1 ELSE @]
                   [] Is("opening") \/ Is("crash") -> Zero
                   [] Is("stat") -> [n EXCEPT !.act = Ev.act]
                   [] Is("cc") -> [n EXCEPT !.cc = @ \cup {Ev.x}]
                   [] Is("cd") -> [n EXCEPT !.cc = @ \ {Ev.x}]
                   [] Is("rm") -> [n EXCEPT !.gone = IF cont[Ev.f] = <<>> THEN @ ELSE @ + 1]
                   [] OTHER -> n)
(* a compaction with nothing else going on: what is due is gone afterwards, nothing else is *)
Watched == due' = (CASE Is("cc") /\ Clean /\ H[1].auto = 0 /\ H[i - 1].e = "stat" -> LET d == Due(H[1].thr, H[i - 1].act) IN [on |-> TRUE, src |-> d, keep |-> {f \in live \ d : cont[f] # <<>>}]
                     [] Is("call") \/ Is("crash") \/ Is("cd") -> Off
                     [] OTHER -> due)
CompactionOK == due.on => due.src \cap live = {} /\ due.keep \subseteq live
StatOK == /\ Ev.running = 0
          /\ StatsSane(Ev.fs, Ev.keys)
          /\ Clean => /\ StatsOK(Ev.fs, Ev.act)
                      /\ Ev.puts = n.puts /\ Ev.gets = n.gets /\ Ev.miss = n.miss /\ Ev.dels = n.dels /\ Ev.gone = n.gone /\ Ev.failed = 0
Listed == [f \in {Ev.fs[j][1] : j \in 1..Len(Ev.fs)} |-> (CHOOSE e \in {Ev.fs[j] : j \in 1..Len(Ev.fs)} : e[1] = f)[2]]
Step == \/ Is("call") /\ Begin(Ev.x, Ev.k, Ev.key, Ev.v)
        \/ Is("ret") /\ End(Ev.x, Ev.ok = 1)
        \/ Is("cr") /\ Create(Ev.f)
        \/ Is("fl") /\ Ev.x = 1 /\ Change(Ev.f, Ev.es)
        \/ Is("sy") /\ Flush(Ev.f)
        \/ Is("ds") /\ FlushNames(Ev.p)
        \/ Is("rm") /\ Remove(Ev.f)
        \/ Is("disk") /\ Found(Listed)
        \/ Is("preset") /\ Preset(Listed)
        \/ Is("opening") /\ Opening
        \/ Is("crash") /\ Crashed
        \/ Is("stat") /\ StatOK /\ UNCHANGED dvars
        \/ Is("cd") /\ CompactionOK /\ UNCHANGED dvars
        \/ Is("sc") /\ SyncBegin(Ev.x)
        \/ Is("sd") /\ SyncEnd(Ev.x, Ev.ok = 1)
        \/ Is("open") /\ Ev.ok = 1 /\ Opened
        \/ (Is("cc") \/ (Is("open") /\ Ev.ok = 0) \/ Is("close")) /\ UNCHANGED dvars
TNext == /\ UNCHANGED run /\ i' = i + 1 /\ Step /\ Counted /\ Watched /\ (Ev.e \in {"fl", "cr", "rm", "ds", "sy", "disk", "preset", "ret", "call", "sd", "open"} => Safe')
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
