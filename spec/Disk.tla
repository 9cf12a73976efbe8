-------------------------------- MODULE Disk --------------------------------
(* The files of the key-value store (C20, C21, C25): after every single      *)
(* file-system effect, a crash at that point must leave files from which     *)
(* recovery - all entries in the order of the files' identifiers, the last   *)
(* one of a key counts - yields for every key an admissible value.           *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES cont,     \* file -> its entries <<key, value, tombstone, bytes>>, also of files whose removal is not durable
          synced,   \* file -> entries at its last flush
          names,    \* files whose names are durable
          live,     \* files that exist
          log,      \* creations and removals since then, in order: <<created, file>>
          val,      \* operation -> value it stores (0: absent)
          cand,     \* key -> operations whose value may come up after a crash
          pend,     \* operation in progress -> [key, before: operations of that key that had ended at its call]
          ackd,     \* where writes are buffered: operation acknowledged but not known to be durable -> [key, before]
          dskip     \* [sync: the unflushed may be lost, lazy: acknowledged does not mean durable, snaps: sync in progress -> acknowledged at its call]
dvars == <<cont, synced, names, live, log, val, cand, pend, ackd, dskip>>
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Empty == [x \in {} |-> 0]

\* identifiers are compared limb by limb
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
RECURSIVE LastOf(_, _, _)
LastOf(es, k, j) == IF j = 0 THEN 0 ELSE IF es[j][1] = k THEN j ELSE LastOf(es, k, j - 1)
Last(es, k) == LastOf(es, k, Len(es))
Having(c, F, k) == {f \in F : Last(c[f], k) # 0}
\* where the latest entry of a key is: <<file, position>>, or <<>>
Newest(c, F, k) == LET H == Having(c, F, k) IN
                   IF H = {} THEN <<>> ELSE LET f == CHOOSE g \in H : \A h \in H : h = g \/ Lt(h, g) IN <<f, Last(c[f], k)>>
Recover(c, F, k) == LET n == Newest(c, F, k) IN
                    IF n = <<>> THEN 0 ELSE LET e == c[n[1]][n[2]] IN IF e[3] = 1 THEN 0 ELSE e[2]

\* names after the first n of the creations and removals
RECURSIVE Names(_)
Names(n) == IF n = 0 THEN names ELSE LET e == log[n] IN IF e[1] THEN Names(n - 1) \cup {e[2]} ELSE Names(n - 1) \ {e[2]}
Keys == DOMAIN cand
Values(k) == {val[x] : x \in cand[k]}

CrashOK == \A k \in Keys : Recover(cont, live, k) \in Values(k)
Contents(F) == LET U == {f \in F : synced[f] # cont[f]} IN
               {[f \in F |-> IF f \in S THEN cont[f] ELSE synced[f]] : S \in SUBSET U}
\* (names and log are only kept up while the power may fail)
PowerOK == \A n \in 0..Len(log) : LET F == Names(n) IN \A c \in Contents(F) : \A k \in Keys : Recover(c, F, k) \in Values(k)
Safe == CrashOK /\ (dskip.sync => PowerOK)

DInit(sync, lazy) == /\ cont = Empty /\ synced = Empty /\ names = {} /\ live = {} /\ log = <<>> /\ pend = Empty /\ ackd = Empty
               /\ val = [x \in {0} |-> 0] /\ cand = Empty /\ dskip = [sync |-> sync, lazy |-> lazy, snaps |-> Empty, used |-> {}, base |-> {}, quiet |-> <<>>]

\* ---- effects
Fresh(f) == f \notin dskip.used /\ \A g \in dskip.base : g[1] = f[1] => Lt(g, f)
Logged(created, f) == IF dskip.sync THEN Append(log, <<created, f>>) ELSE log
Create(f) == /\ Fresh(f)
             /\ cont' = Put(cont, f, <<>>) /\ synced' = Put(synced, f, <<>>) /\ log' = Logged(TRUE, f) /\ live' = live \cup {f}
             /\ dskip' = [dskip EXCEPT !.used = @ \cup {f}]
             /\ UNCHANGED <<names, val, cand, pend, ackd>>
Change(f, es) == /\ f \in live /\ cont' = [cont EXCEPT ![f] = es] /\ UNCHANGED <<synced, names, live, log, val, cand, pend, ackd, dskip>>
Flush(f) == /\ synced' = IF f \in DOMAIN cont /\ dskip.sync THEN [synced EXCEPT ![f] = cont[f]] ELSE synced
            /\ UNCHANGED <<cont, names, live, log, val, cand, pend, ackd, dskip>>
Remove(f) == /\ f \in live /\ log' = Logged(FALSE, f) /\ live' = live \ {f} /\ cont' = (IF dskip.sync THEN cont ELSE Without(cont, f))
             /\ UNCHANGED <<synced, names, val, cand, pend, ackd, dskip>>
FlushNames(p) == LET mine == SelectSeq(log, LAMBDA e : e[2][1] = p)
                     gone == {f \in DOMAIN cont : f[1] = p /\ f \notin live} IN
                 /\ names' = {f \in names : f[1] # p} \cup {f \in live : f[1] = p}
                 /\ log' = SelectSeq(log, LAMBDA e : e[2][1] # p)
                 /\ cont' = [f \in DOMAIN cont \ gone |-> cont[f]] /\ synced' = [f \in DOMAIN synced \ gone |-> synced[f]]
                 /\ UNCHANGED <<live, val, cand, pend, ackd, dskip>>
\* the directory as found (at the start; after a loss of power)
Found(c) == /\ cont' = c /\ synced' = c /\ names' = DOMAIN c /\ live' = DOMAIN c /\ log' = <<>>
            /\ dskip' = [dskip EXCEPT !.used = @ \cup DOMAIN c, !.base = DOMAIN c]
            /\ UNCHANGED <<val, cand, pend, ackd>>
(* the directory with which everything begins: what it holds counts as stored *)
Preset(c) == LET k2v == {<<k, Recover(c, DOMAIN c, k)>> : k \in UNION {{c[f][j][1] : j \in 1..Len(c[f])} : f \in DOMAIN c}} IN
             /\ cont' = c /\ synced' = c /\ names' = DOMAIN c /\ live' = DOMAIN c /\ log' = <<>>
             /\ dskip' = [dskip EXCEPT !.used = DOMAIN c, !.base = DOMAIN c]
             /\ cand' = [k \in {kv[1] : kv \in k2v} |-> {1000000 + kv[2] : kv \in {q \in k2v : q[1] = k}}]
             /\ val' = [x \in {0} \cup {1000000 + kv[2] : kv \in k2v} |-> IF x = 0 THEN 0 ELSE x - 1000000]
             /\ UNCHANGED <<pend, ackd>>
Opening == dskip' = [dskip EXCEPT !.base = live, !.used = live] /\ UNCHANGED <<cont, synced, names, live, log, val, cand, pend, ackd>>

\* ---- operations
Ended(k) == At(cand, k, {0}) \ DOMAIN pend
Begin(x, k, key, v) ==
   /\ IF k = "get" THEN UNCHANGED <<val, cand, pend, ackd>>
      ELSE /\ val' = Put(val, x, v)
           /\ pend' = Put(pend, x, [key |-> key, before |-> Ended(key)])
           /\ cand' = Put(cand, key, At(cand, key, {0}) \cup {x})
   /\ UNCHANGED <<cont, synced, names, live, log, ackd, dskip>>
End(x, ok) ==
   /\ IF x \notin DOMAIN pend THEN UNCHANGED <<pend, cand, ackd>>
      ELSE /\ pend' = Without(pend, x)
           /\ cand' = IF ok /\ ~dskip.lazy THEN [cand EXCEPT ![pend[x].key] = @ \ pend[x].before] ELSE cand
           /\ ackd' = IF ok /\ dskip.lazy THEN Put(ackd, x, pend[x]) ELSE ackd
   /\ UNCHANGED <<cont, synced, names, live, log, val, dskip>>
Crashed == /\ pend' = Empty /\ ackd' = Empty /\ dskip' = [dskip EXCEPT !.snaps = Empty]
           /\ UNCHANGED <<cont, synced, names, live, log, val, cand>>
\* what was acknowledged before a sync (or a close) began is durable once that has succeeded
SyncBegin(s) == dskip' = [dskip EXCEPT !.snaps = Put(@, s, DOMAIN ackd)] /\ UNCHANGED <<cont, synced, names, live, log, val, cand, pend, ackd>>
SyncEnd(s, ok) ==
   /\ s \in DOMAIN dskip.snaps
   /\ dskip' = [dskip EXCEPT !.snaps = Without(@, s)]
   /\ LET D == IF ok THEN dskip.snaps[s] \cap DOMAIN ackd ELSE {} IN
      /\ cand' = [k \in DOMAIN cand |-> cand[k] \ UNION {ackd[x].before : x \in {y \in D : ackd[y].key = k}}]
      /\ ackd' = [x \in DOMAIN ackd \ D |-> ackd[x]]
   /\ UNCHANGED <<cont, synced, names, live, log, val, pend>>
\* what recovery has brought up is there to stay
Opened == /\ cand' = [k \in DOMAIN cand |-> {x \in cand[k] : val[x] = Recover(cont, live, k)}]
          /\ UNCHANGED <<cont, synced, names, live, log, val, pend, ackd, dskip>>

\* ---- statistics, when nothing is going on
RECURSIVE SumTo(_, _)
SumTo(es, n) == IF n = 0 THEN 0 ELSE SumTo(es, n - 1) + es[n][4]
Total(f) == SumTo(cont[f], Len(cont[f]))
AllKeys == UNION {{cont[f][j][1] : j \in 1..Len(cont[f])} : f \in live}
LiveIn(f) == {n \in {Newest(cont, live, k) : k \in AllKeys} : n[1] = f /\ cont[f][n[2]][3] = 0}
RECURSIVE SumLive(_, _)
SumLive(f, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE m \in S : TRUE IN SumLive(f, S \ {n}) + cont[f][n[2]][4]
Truth(f) == <<Total(f), SumLive(f, LiveIn(f)), Cardinality(LiveIn(f))>>
\* fs: sequence of <<file, total, live bytes, live entries>>
StatsOK(fs, act) == /\ {fs[j][1] : j \in 1..Len(fs)} \subseteq live
                    /\ Cardinality({fs[j][1] : j \in 1..Len(fs)}) = Len(fs)
                    /\ \A j \in 1..Len(fs) : <<fs[j][2], fs[j][3], fs[j][4]>> = Truth(fs[j][1])
                    /\ \A f \in live : f \in {fs[j][1] : j \in 1..Len(fs)} \/ cont[f] = <<>>
                    /\ act \in live
\* as far as it goes when requests fail: what a failed write left behind is nobody's
RECURSIVE SumEntries(_)
SumEntries(fs) == IF fs = <<>> THEN 0 ELSE fs[1][4] + SumEntries(SubSeq(fs, 2, Len(fs)))
StatsSane(fs, keys) == /\ Cardinality({fs[j][1] : j \in 1..Len(fs)}) = Len(fs)
                       /\ \A j \in 1..Len(fs) : /\ fs[j][4] >= 0 /\ fs[j][3] >= 0 /\ fs[j][3] <= fs[j][2]
                                               /\ (fs[j][4] = 0) <=> (fs[j][3] = 0)
                       /\ SumEntries(fs) = keys
\* files due for compaction: no more than (100 - thr) percent of their bytes are live
Due(thr, act) == {f \in live \ {act} : Total(f) > 0 /\ (Total(f) - Truth(f)[2]) * 100 >= thr * Total(f)}
=============================================================================
