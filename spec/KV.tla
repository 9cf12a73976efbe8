--------------------------------- MODULE KV ---------------------------------
(* What a user sees of the key-value store (C19, C20, C21): a single map.    *)
(* An operation takes effect at one point between its call and its return   *)
(* (Lin).  Compaction is not part of this specification: nobody may notice. *)
(* A crash loses nothing that was acknowledged (or, where writes are        *)
(* buffered, nothing acknowledged before the last sync); an operation that  *)
(* was in progress, or reported as failed, may have taken effect or not.    *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES map,      \* key -> value (0: absent)
          maybe,    \* key -> values a crash may bring up instead
          ops,      \* operation in progress -> [k, key, v, lin, res]
          up,       \* the store is open
          faulty,   \* the environment may refuse requests
          lazy,     \* acknowledged does not mean durable: only sync and close do that
          snaps     \* sync in progress -> [key -> values that cannot come up once it has succeeded]
kvvars == <<map, maybe, ops, up, faulty, lazy, snaps>>
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Value(k) == At(map, k, 0)
Maybe(k) == At(maybe, k, {})
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Empty == [x \in {} |-> 0]

KVInit(f, l) == map = Empty /\ maybe = Empty /\ ops = Empty /\ up = FALSE /\ faulty = f /\ lazy = l /\ snaps = Empty

(* a store that held something before *)
Holding(m) == map = Empty /\ ~up /\ map' = m /\ UNCHANGED <<maybe, ops, up, faulty, lazy, snaps>>
Call(x, k, key, v) == /\ up /\ x \notin DOMAIN ops
                      /\ ops' = Put(ops, x, [k |-> k, key |-> key, v |-> v, lin |-> FALSE, res |-> 0])
                      /\ UNCHANGED <<map, maybe, up, faulty, lazy, snaps>>
\* a value that comes up (again) after a sync began
Again(k, v) == [s \in DOMAIN snaps |-> [q \in DOMAIN snaps[s] |-> IF q = k THEN snaps[s][q] \ {v} ELSE snaps[s][q]]]
Lin(x) == LET o == ops[x] IN
          /\ ~o.lin
          /\ ops' = [ops EXCEPT ![x].lin = TRUE, ![x].res = IF o.k = "get" THEN Value(o.key) ELSE 0]
          /\ map' = IF o.k = "get" THEN map ELSE Put(map, o.key, IF o.k = "put" THEN o.v ELSE 0)
          \* what a crash could have brought up instead is overwritten when this is known to be on disk: at its return
          /\ IF o.k # "get" /\ lazy
             THEN /\ maybe' = Put(maybe, o.key, Maybe(o.key) \cup {Value(o.key)})
                  /\ snaps' = Again(o.key, Value(o.key))
             ELSE UNCHANGED <<maybe, snaps>>
          /\ UNCHANGED <<up, faulty, lazy>>
(* values a crash can bring up instead, once an operation on the key that began after them has been acknowledged: none *)
Ret(x, ok, v) == LET o == ops[x] IN
   /\ x \in DOMAIN ops
   /\ ops' = Without(ops, x)
   /\ IF ok
      THEN /\ o.lin /\ (o.k = "get" => o.res = v)
           /\ maybe' = IF o.k = "get" \/ lazy THEN maybe ELSE Put(maybe, o.key, {})
           /\ UNCHANGED snaps
      ELSE /\ faulty
           /\ maybe' = IF o.k = "get" \/ o.lin THEN maybe
                       ELSE Put(maybe, o.key, Maybe(o.key) \cup {IF o.k = "put" THEN o.v ELSE 0})
           /\ snaps' = IF o.k = "get" \/ o.lin THEN snaps ELSE Again(o.key, IF o.k = "put" THEN o.v ELSE 0)
   /\ UNCHANGED <<map, up, faulty, lazy>>
(* what was acknowledged before a sync began is durable once it has succeeded; the same goes for closing *)
SyncCall(x) == /\ snaps' = Put(snaps, x, [k \in DOMAIN maybe |-> IF \E y \in DOMAIN ops : ops[y].key = k /\ ops[y].k # "get" THEN {} ELSE Maybe(k) \ {Value(k)}])
               /\ UNCHANGED <<map, maybe, ops, up, faulty, lazy>>
SyncRet(x, ok) == /\ x \in DOMAIN snaps /\ snaps' = Without(snaps, x)
                  /\ maybe' = IF ok /\ lazy THEN [k \in DOMAIN maybe |-> Maybe(k) \ At(snaps[x], k, {})] ELSE maybe
                  /\ UNCHANGED <<map, ops, up, faulty, lazy>>
(* operations in progress become values that may come up or not *)
InProgress(k) == {IF ops[x].k = "put" THEN ops[x].v ELSE 0 : x \in {y \in DOMAIN ops : ops[y].key = k /\ ops[y].k # "get"}}
Crash == /\ maybe' = [k \in DOMAIN maybe \cup {ops[x].key : x \in DOMAIN ops} |-> Maybe(k) \cup InProgress(k)]
         /\ ops' = Empty /\ up' = FALSE /\ snaps' = Empty
         /\ UNCHANGED <<map, faulty, lazy>>
(* opening brings up, for each key, one of the values possible; that one is there to stay *)
Reopen(bring) ==
   /\ ~up /\ up' = TRUE
   /\ \A k \in DOMAIN bring : bring[k] \in Maybe(k) \cup {Value(k)}
   /\ map' = [k \in DOMAIN map \cup DOMAIN bring |-> IF k \in DOMAIN bring THEN bring[k] ELSE Value(k)]
   /\ maybe' = Empty
   /\ UNCHANGED <<ops, faulty, lazy, snaps>>
Close == /\ up /\ ops = Empty /\ up' = FALSE /\ UNCHANGED <<map, maybe, ops, faulty, lazy, snaps>>
=============================================================================
