------------------------------ MODULE FdCache ------------------------------
(* The cache of open data files (C24): least recently used first out, never   *)
(* more than its limit (at least one); what is in use or cached is open, what *)
(* is neither gets closed.                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT NoFd
VARIABLES limit,
          lru,      \* cached files, most recently used first
          fd,       \* cached file -> descriptor
          open,     \* open descriptor -> file
          pend,     \* request -> [f, hit: descriptor or NoFd]
          held,     \* request -> descriptor in use
          fails,    \* failures to open, not yet reported: file -> set of codes
          cnt       \* [h, m, e]
cvars == <<limit, lru, fd, open, pend, held, fails, cnt>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]
Max1(n) == IF n = 0 THEN 1 ELSE n
CInit(n) == /\ limit = Max1(n) /\ lru = <<>> /\ fd = Empty /\ open = Empty /\ pend = Empty /\ held = Empty
            /\ fails = {} /\ cnt = [h |-> 0, m |-> 0, e |-> 0]
Cached(f) == f \in DOMAIN fd
Front(f) == <<f>> \o SelectSeq(lru, LAMBDA g : g # f)
Cut(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
InUse == {fd[f] : f \in DOMAIN fd} \cup {held[x] : x \in DOMAIN held} \cup {pend[x].got : x \in DOMAIN pend}
Request(x, f) ==
   /\ pend' = Put(pend, x, [f |-> f, hit |-> Cached(f), got |-> IF Cached(f) THEN fd[f] ELSE NoFd])
   /\ cnt' = IF Cached(f) THEN [cnt EXCEPT !.h = @ + 1] ELSE [cnt EXCEPT !.m = @ + 1]
   /\ lru' = (IF Cached(f) THEN Front(f) ELSE lru)
   /\ UNCHANGED <<limit, fd, open, held, fails>>
Opened(f, d) == d \notin DOMAIN open /\ open' = Put(open, d, f) /\ UNCHANGED <<limit, lru, fd, pend, held, fails, cnt>>
NotOpened(f, c) == fails' = fails \cup {<<f, c>>} /\ UNCHANGED <<limit, lru, fd, open, pend, held, cnt>>
\* the request continues after its file was opened: somebody else's descriptor, or its own one is cached
Insert(x) ==
   LET f == pend[x].f IN
   /\ pend[x].got = NoFd
   /\ \E d \in DOMAIN open \ InUse : open[d] = f /\
      IF Cached(f)
      THEN /\ lru' = Front(f) /\ pend' = [pend EXCEPT ![x].got = fd[f]] /\ UNCHANGED <<fd, cnt>>
      ELSE LET keep == Cut(lru, limit - 1) IN
           /\ lru' = <<f>> \o keep
           /\ fd' = [g \in {keep[j] : j \in 1..Len(keep)} \cup {f} |-> IF g = f THEN d ELSE fd[g]]
           /\ cnt' = [cnt EXCEPT !.e = @ + Len(lru) - Len(keep)]
           /\ pend' = [pend EXCEPT ![x].got = d]
   /\ UNCHANGED <<limit, open, held, fails>>
Counted(s) == s.size = Len(lru) /\ s.h = cnt.h /\ s.m = cnt.m /\ s.ev = cnt.e /\ s.size <= limit
Got(x, d, hold) ==
   /\ pend[x].got = d /\ d \in DOMAIN open /\ open[d] = pend[x].f
   /\ pend' = Del(pend, x) /\ held' = (IF hold THEN Put(held, x, d) ELSE held)
   /\ UNCHANGED <<limit, lru, fd, open, fails, cnt>>
Failed(x, c) == /\ pend[x].got = NoFd /\ <<pend[x].f, c>> \in fails
                /\ pend' = Del(pend, x) /\ UNCHANGED <<limit, lru, fd, open, held, fails, cnt>>
Read(x, c) == held[x] \in DOMAIN open /\ c = open[held[x]] /\ UNCHANGED cvars
Release(x) == held' = Del(held, x) /\ UNCHANGED <<limit, lru, fd, open, pend, fails, cnt>>
Remove(f) == /\ fd' = Del(fd, f) /\ lru' = SelectSeq(lru, LAMBDA g : g # f)
             /\ UNCHANGED <<limit, open, pend, held, fails, cnt>>
Clear == fd' = Empty /\ lru' = <<>> /\ UNCHANGED <<limit, open, pend, held, fails, cnt>>
Closed(d) == /\ d \in DOMAIN open /\ d \notin InUse
             /\ open' = Del(open, d) /\ UNCHANGED <<limit, lru, fd, pend, held, fails, cnt>>
\* nobody is waiting: whatever is open is cached or in use
Quiet == (pend = Empty => DOMAIN open \subseteq InUse) /\ UNCHANGED cvars
CacheOK == /\ Len(lru) <= limit /\ DOMAIN fd = {lru[j] : j \in 1..Len(lru)} /\ Cardinality(DOMAIN fd) = Len(lru)
           /\ \A f \in DOMAIN fd : fd[f] \in DOMAIN open /\ open[fd[f]] = f
=============================================================================
