------------------------------ MODULE Topology ------------------------------
(* The number of partitions of a store is fixed when it is created; opening   *)
(* it with another one, or with a damaged manifest, is refused and changes    *)
(* nothing (C23). A key always lives in the same partition.                   *)
EXTENDS Naturals, Integers, FiniteSets
VARIABLES made,     \* numbers of partitions the store may have; 0: does not exist yet
          hurt,     \* the manifest is damaged
          isopen,
          part,     \* key -> its partition
          vals
tpvars == <<made, hurt, isopen, part, vals>>
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
TpInit == made = {0} /\ hurt = FALSE /\ isopen = FALSE /\ part = Empty /\ vals = Empty
(* an attempt that was cut short *)
Try(n) == made' = (IF 0 \in made THEN made \cup {n} ELSE made) /\ UNCHANGED <<hurt, isopen, part, vals>>
(* after attempts cut short, several outcomes are possible; what is observed decides *)
Open(n, ok, same) ==
   \E m \in made :
     /\ IF hurt \/ n = 0 THEN ~ok ELSE ok <=> m \in {0, n}
     /\ ~ok => same
     /\ made' = (IF ok THEN {n} ELSE {m}) /\ isopen' = ok
     /\ UNCHANGED <<hurt, part, vals>>
Damage == hurt' = TRUE /\ UNCHANGED <<made, isopen, part, vals>>
Restored == hurt' = FALSE /\ UNCHANGED <<made, isopen, part, vals>>
PutAt(k, v, p) == /\ isopen /\ \E n \in made : p \in 0..(n - 1)
                  /\ k \in DOMAIN part => p = part[k]
                  /\ part' = Put(part, k, p) /\ vals' = Put(vals, k, v)
                  /\ UNCHANGED <<made, hurt, isopen>>
Get(k, v) == isopen /\ v = At(vals, k, 0) /\ UNCHANGED tpvars
=============================================================================
