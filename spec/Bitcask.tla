------------------------------ MODULE Bitcask ------------------------------
(* The algorithm of one store partition, step by step: append, publish,      *)
(* rotation, compaction (choose, copy, publish, sync, unlink), lookups that   *)
(* race with it, crashes with and without loss of power, recovery.            *)
(* Checked: C19 (lookups answer what was written), C20 (what was acknowledged *)
(* survives), C21 (compaction changes no key, even when it is interrupted).   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS Keys, MaxOps, FileCap, MaxCompactions, MaxCrashes, Sync, Lazy, Faults, Reads, Mutant
VARIABLES disk,   \* file -> its entries <<key, value>> (0 = deleted); the page cache
          gone,   \* removed files (their removal may not survive)
          dur,    \* file -> how many of them have been synced
          names,  \* names that survive a loss of power
          dirlog, \* creations and removals after that
          kd,     \* key -> <<file, position>> or <<>>
          act, nid, \* active file, next file number
          w,      \* the operation that holds the write lock
          c,      \* the compaction
          r,      \* one lookup
          abs,    \* key -> value last acknowledged
          may,    \* Lazy: key -> values acknowledged, or overwritten, since the last sync
          done,   \* operations started
          used,   \* [comp, crash]
          ok
vars == <<disk, gone, dur, names, dirlog, kd, act, nid, w, c, r, abs, may, done, used, ok>>
None == <<>>
IdleW == [pc |-> "idle", k |-> "", v |-> 0, for |-> "", new |-> 0]
IdleC == [pc |-> "idle", src |-> <<>>, dst |-> 0, j |-> 1, p |-> 1, batch |-> <<>>]
IdleR == [pc |-> "idle", k |-> "", loc |-> None, seen |-> {}]
Same == Permutations(Keys)
Init == /\ disk = [f \in {1} |-> <<>>] /\ gone = [f \in {} |-> <<>>] /\ dur = [f \in {1} |-> 0] /\ names = {1} /\ dirlog = <<>>
        /\ kd = [k \in Keys |-> None] /\ act = 1 /\ nid = 2 /\ w = IdleW /\ c = IdleC /\ r = IdleR
        /\ abs = [k \in Keys |-> 0] /\ may = [k \in Keys |-> {}] /\ done = 0 /\ used = [comp |-> 0, crash |-> 0] /\ ok = TRUE
Put1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rest(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Apply(s, log) == FoldLeft(LAMBDA acc, o: IF o[1] = "+" THEN acc \cup {o[2]} ELSE acc \ {o[2]}, s, log)
Ascending(S) == SetToSortSeq(S, <)

\* ------------------------------------------------------------------- writes
Start(k, del) ==
   /\ w.pc = "idle" /\ done < MaxOps /\ done' = done + 1
   /\ del => kd[k] # None
   /\ w' = [IdleW EXCEPT !.pc = IF Len(disk[act]) >= FileCap THEN "rotate" ELSE "append", !.k = k, !.v = IF del THEN 0 ELSE done + 1, !.for = "op"]
   /\ UNCHANGED <<gone, disk, dur, names, dirlog, kd, act, nid, c, r, abs, may, used, ok>>
\* the old file is synced, a new one created, its name synced, then it is used
Rotate == /\ w.pc = "rotate" /\ dur' = [dur EXCEPT ![act] = Len(disk[act])]
          /\ w' = [w EXCEPT !.pc = "create"] /\ UNCHANGED <<gone, disk, names, dirlog, kd, act, nid, c, r, abs, may, done, used, ok>>
Create == /\ w.pc = "create"
          /\ disk' = Put1(disk, nid, <<>>) /\ dur' = Put1(dur, nid, 0) /\ dirlog' = Append(dirlog, <<"+", nid>>)
          /\ nid' = nid + 1 /\ w' = [w EXCEPT !.pc = "name", !.new = nid]
          /\ UNCHANGED <<gone, names, kd, act, c, r, abs, may, done, used, ok>>
NameIt == /\ w.pc = "name"
          /\ (IF Mutant # "noname" THEN names' = Apply(names, dirlog) /\ dirlog' = <<>> ELSE UNCHANGED <<names, dirlog>>)
          /\ act' = w.new
          /\ (IF w.for = "op" THEN w' = [w EXCEPT !.pc = "append"] /\ UNCHANGED c
              ELSE w' = IdleW /\ c' = [c EXCEPT !.pc = "open", !.dst = IF Mutant = "latedst" THEN nid ELSE @])
          /\ nid' = (IF w.for = "compact" /\ Mutant = "latedst" THEN nid + 1 ELSE nid)
          /\ UNCHANGED <<gone, disk, dur, kd, r, abs, may, done, used, ok>>
AppendIt == /\ w.pc = "append" /\ disk' = [disk EXCEPT ![act] = Append(@, <<w.k, w.v>>)]
            /\ w' = [w EXCEPT !.pc = "sync"] /\ UNCHANGED <<gone, dur, names, dirlog, kd, act, nid, c, r, abs, may, done, used, ok>>
SyncIt == /\ w.pc = "sync" /\ dur' = (IF Sync THEN [dur EXCEPT ![act] = Len(disk[act])] ELSE dur)
          /\ w' = [w EXCEPT !.pc = "publish"] /\ UNCHANGED <<gone, disk, names, dirlog, kd, act, nid, c, r, abs, may, done, used, ok>>
Publish == /\ w.pc = "publish"
           /\ kd' = [kd EXCEPT ![w.k] = IF w.v = 0 THEN None ELSE <<act, Len(disk[act])>>]
           /\ abs' = [abs EXCEPT ![w.k] = w.v] /\ w' = IdleW
           /\ r' = (IF r.pc # "idle" /\ r.k = w.k THEN [r EXCEPT !.seen = @ \cup {w.v}] ELSE r)
           /\ may' = (IF Lazy THEN [may EXCEPT ![w.k] = @ \cup {abs[w.k]}] ELSE may)
           /\ UNCHANGED <<gone, disk, dur, names, dirlog, act, nid, c, done, used, ok>>

\* --------------------------------------------------------------- compaction
\* any choice of sealed files; the destination's number precedes that of the file writes go to from now on
Choose(S) == /\ c.pc = "idle" /\ w.pc = "idle" /\ used.comp < MaxCompactions /\ S # {} /\ S \subseteq DOMAIN disk \ {act}
             /\ used' = [used EXCEPT !.comp = @ + 1]
             /\ c' = [IdleC EXCEPT !.pc = "rotating", !.src = IF Mutant = "descending" THEN Reverse(Ascending(S)) ELSE Ascending(S), !.dst = nid]
             /\ nid' = (IF Mutant = "latedst" THEN nid ELSE nid + 1)
             /\ w' = [IdleW EXCEPT !.pc = "rotate", !.for = "compact"]
             /\ UNCHANGED <<gone, disk, dur, names, dirlog, kd, act, r, abs, may, done, ok>>
OpenDst == /\ c.pc = "open" /\ disk' = Put1(disk, c.dst, <<>>) /\ dur' = Put1(dur, c.dst, 0) /\ dirlog' = Append(dirlog, <<"+", c.dst>>)
           /\ c' = [c EXCEPT !.pc = "scan"] /\ UNCHANGED <<gone, names, kd, act, nid, w, r, abs, may, done, used, ok>>
Src == c.src[c.j]
Needed(k, f) == /\ kd[k] = None /\ Mutant # "droptomb"
                /\ \E g \in DOMAIN disk : g < f /\ g \notin ToSet(c.src)
Scan == /\ c.pc = "scan" /\ c.j <= Len(c.src) /\ c.p <= Len(disk[Src])
        /\ LET e == disk[Src][c.p]
               live == e[2] # 0 /\ kd[e[1]] = <<Src, c.p>>
           IN c' = [c EXCEPT !.p = @ + 1, !.batch = IF live \/ (e[2] = 0 /\ Needed(e[1], Src)) THEN Append(@, <<e, <<Src, c.p>>>>) ELSE @]
        /\ UNCHANGED <<gone, disk, dur, names, dirlog, kd, act, nid, w, r, abs, may, done, used, ok>>
\* a batch is written when there is enough of it, and at the end of each file
Write == /\ c.pc = "scan" /\ c.j <= Len(c.src) /\ c.batch # <<>>
         /\ disk' = [disk EXCEPT ![c.dst] = @ \o [n \in 1..Len(c.batch) |-> c.batch[n][1]]]
         /\ c' = [c EXCEPT !.pc = "repoint"] /\ UNCHANGED <<gone, dur, names, dirlog, kd, act, nid, w, r, abs, may, done, used, ok>>
\* keys written or deleted meanwhile keep their new place
Repoint ==
   /\ c.pc = "repoint" /\ c' = [c EXCEPT !.pc = "scan", !.batch = <<>>]
   /\ LET base == Len(disk[c.dst]) - Len(c.batch)
          at(k) == {n \in 1..Len(c.batch) : c.batch[n][1][1] = k /\ c.batch[n][1][2] # 0 /\ (kd[k] = c.batch[n][2] \/ (Mutant = "blind" /\ kd[k] # None))}
      IN kd' = [k \in Keys |-> IF at(k) = {} THEN kd[k] ELSE <<c.dst, base + Max(at(k))>>]
   /\ UNCHANGED <<gone, disk, dur, names, dirlog, act, nid, w, r, abs, may, done, used, ok>>
NextSrc == /\ c.pc = "scan" /\ c.j <= Len(c.src) /\ c.p > Len(disk[Src]) /\ c.batch = <<>>
           /\ c' = [c EXCEPT !.j = @ + 1, !.p = 1] /\ UNCHANGED <<gone, disk, dur, names, dirlog, kd, act, nid, w, r, abs, may, done, used, ok>>
Copied == /\ c.pc = "scan" /\ c.j > Len(c.src)
          /\ (IF disk[c.dst] = <<>> THEN /\ disk' = Rest(disk, c.dst) /\ dur' = Rest(dur, c.dst) /\ dirlog' = Append(dirlog, <<"-", c.dst>>) /\ gone' = Put1(gone, c.dst, <<>>)
                                         /\ c' = [c EXCEPT !.pc = "settle", !.j = 1]
              ELSE /\ dur' = (IF Mutant = "nofsync" THEN dur ELSE [dur EXCEPT ![c.dst] = Len(disk[c.dst])]) /\ c' = [c EXCEPT !.pc = "dirsync"] /\ UNCHANGED <<disk, dirlog, gone>>)
          /\ UNCHANGED <<names, kd, act, nid, w, r, abs, may, done, used, ok>>
\* what replaced entries of the sources meanwhile
Settle == /\ c.pc = "settle" /\ c' = [c EXCEPT !.pc = "unlink"]
          /\ dur' = (IF Mutant = "nosettle" THEN dur ELSE [dur EXCEPT ![act] = Len(disk[act])])
          /\ UNCHANGED <<gone, disk, names, dirlog, kd, act, nid, w, r, abs, may, done, used, ok>>
\* a request fails: what has been moved stays where it is
Interrupted == /\ Faults /\ c.pc = "scan" /\ c.j <= Len(c.src) /\ c' = IdleC
               /\ (IF disk[c.dst] = <<>> THEN /\ disk' = Rest(disk, c.dst) /\ dur' = Rest(dur, c.dst) /\ dirlog' = Append(dirlog, <<"-", c.dst>>) /\ gone' = Put1(gone, c.dst, <<>>)
                   ELSE dur' = (IF Mutant = "nofailsync" THEN dur ELSE [dur EXCEPT ![c.dst] = Len(disk[c.dst])]) /\ UNCHANGED <<disk, dirlog, gone>>)
               /\ UNCHANGED <<names, kd, act, nid, w, r, abs, may, done, used, ok>>
DirSync == /\ c.pc = "dirsync" /\ c' = [c EXCEPT !.pc = "settle", !.j = 1]
           /\ names' = Apply(names, dirlog) /\ dirlog' = <<>>
           /\ UNCHANGED <<gone, disk, dur, kd, act, nid, w, r, abs, may, done, used, ok>>
Unlink == /\ c.pc = "unlink"
          /\ IF c.j > Len(c.src) THEN c' = IdleC /\ UNCHANGED <<disk, dur, dirlog, gone>>
             ELSE /\ gone' = Put1(gone, Src, disk[Src]) /\ disk' = Rest(disk, Src) /\ dur' = Rest(dur, Src) /\ dirlog' = Append(dirlog, <<"-", Src>>) /\ c' = [c EXCEPT !.j = @ + 1]
          /\ UNCHANGED <<names, kd, act, nid, w, r, abs, may, done, used, ok>>

\* ------------------------------------------------------------------ lookups
Look(k) == Reads /\ r.pc = "idle" /\ done < MaxOps /\ r' = [pc |-> "look", k |-> k, loc |-> None, seen |-> {abs[k]}]
           /\ UNCHANGED <<gone, disk, dur, names, dirlog, kd, act, nid, w, c, abs, may, done, used, ok>>
Find == /\ r.pc = "look"
        /\ (IF kd[r.k] = None THEN r' = IdleR /\ ok' = (ok /\ 0 \in r.seen) ELSE r' = [r EXCEPT !.pc = "read", !.loc = kd[r.k]] /\ UNCHANGED ok)
        /\ UNCHANGED <<gone, disk, dur, names, dirlog, kd, act, nid, w, c, abs, may, done, used>>
\* the file may have gone meanwhile: look again, unless nothing changed
ReadIt == /\ r.pc = "read"
          /\ LET f == r.loc[1] p == r.loc[2] IN
             IF f \in DOMAIN disk THEN r' = IdleR /\ ok' = (ok /\ p <= Len(disk[f]) /\ disk[f][p][1] = r.k /\ disk[f][p][2] \in r.seen)
             ELSE IF Mutant = "noretry" \/ kd[r.k] = r.loc THEN ok' = FALSE /\ r' = IdleR
             ELSE r' = [r EXCEPT !.pc = "look"] /\ UNCHANGED ok
          /\ UNCHANGED <<gone, disk, dur, names, dirlog, kd, act, nid, w, c, abs, may, done, used>>

\* ------------------------------------------------------- crash and recovery
Order(D) == IF Mutant = "unsorted" THEN Reverse(Ascending(DOMAIN D)) ELSE Ascending(DOMAIN D)
Scanned(D) == LET step(m, f) == LET one(a, n) == [a EXCEPT ![D[f][n][1]] = IF D[f][n][2] = 0 THEN None ELSE <<f, n>>]
                                IN FoldLeft(one, m, [n \in 1..Len(D[f]) |-> n])
              IN FoldLeft(step, [k \in Keys |-> None], Order(D))
ValueIn(D, m, k) == IF m[k] = None THEN 0 ELSE D[m[k][1]][m[k][2]][2]
\* an operation that has not returned may or may not have happened
Allowed(k) == {abs[k]} \cup may[k] \cup (IF w.pc \in {"sync", "publish"} /\ w.for = "op" /\ w.k = k THEN {w.v} ELSE {})
\* where the process alone died, what had not been synced (before) still is not: recovery does it
Recover(D, before) == LET m == Scanned(D)
                  n == IF Mutant = "noadvance" THEN Min(DOMAIN D \cup {1}) - 1 ELSE Max(DOMAIN D \cup {0}) + 1
                  new == IF n \in DOMAIN D THEN Max(DOMAIN D) ELSE n IN
   /\ ok' = (ok /\ \A k \in Keys : ValueIn(D, m, k) \in Allowed(k))
   /\ kd' = m /\ abs' = [k \in Keys |-> ValueIn(D, m, k)]
   /\ act' = new /\ disk' = Put1(D, new, IF new \in DOMAIN D THEN D[new] ELSE <<>>) /\ nid' = n + 1
   /\ dur' = [f \in DOMAIN disk' |-> IF Mutant = "norecsync" /\ f \in DOMAIN before THEN before[f] ELSE Len(disk'[f])] /\ may' = [k \in Keys |-> {}] /\ names' = DOMAIN disk' /\ dirlog' = <<>> /\ gone' = [f \in {} |-> <<>>]
   /\ w' = IdleW /\ c' = IdleC /\ r' = IdleR /\ used' = [used EXCEPT !.crash = @ + 1] /\ UNCHANGED done
Crash == used.crash < MaxCrashes /\ Recover(disk, dur)
\* directory changes survive up to some point, file contents each up to some point not before the last sync
PowerLoss ==
   /\ (Sync \/ Lazy) /\ used.crash < MaxCrashes
   /\ \E n \in 0..Len(dirlog) : LET left == Apply(names, SubSeq(dirlog, 1, n)) IN
         \E cut \in [left \cap DOMAIN disk -> {"all", "synced"}] :
            Recover([f \in left |-> IF f \notin DOMAIN disk THEN gone[f] ELSE IF cut[f] = "all" THEN disk[f] ELSE SubSeq(disk[f], 1, dur[f])], [f \in {} |-> 0])
\* the user asks for it
SyncAll == /\ Lazy /\ may # [k \in Keys |-> {}]
           /\ dur' = [dur EXCEPT ![act] = Len(disk[act])] /\ may' = [k \in Keys |-> {}]
           /\ UNCHANGED <<gone, disk, names, dirlog, kd, act, nid, w, c, r, abs, done, used, ok>>
Next == \/ \E k \in Keys, d \in BOOLEAN : Start(k, d)
        \/ Rotate \/ Create \/ NameIt \/ AppendIt \/ SyncIt \/ Publish
        \/ \E S \in SUBSET (DOMAIN disk \ {act}) : Choose(S)
        \/ OpenDst \/ Scan \/ Write \/ Repoint \/ NextSrc \/ Copied \/ DirSync \/ Settle \/ Interrupted \/ SyncAll \/ Unlink
        \/ \E k \in Keys : Look(k)
        \/ Find \/ ReadIt \/ Crash \/ PowerLoss
Spec == Init /\ [][Next]_vars
\* what the index points at is what was acknowledged last
Indexed == \A k \in Keys : \/ kd[k] = None /\ abs[k] = 0
                           \/ /\ kd[k] # None /\ kd[k][1] \in DOMAIN disk /\ kd[k][2] <= Len(disk[kd[k][1]])
                              /\ disk[kd[k][1]][kd[k][2]] = <<k, abs[k]>>
Holds == ok
\* a process that is killed at any point finds what was acknowledged (unsynced or not)
Killable == LET m == Scanned(disk) IN \A k \in Keys : ValueIn(disk, m, k) \in Allowed(k)
=============================================================================
