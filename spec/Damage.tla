------------------------------- MODULE Damage -------------------------------
(* A store some of whose files were damaged while it was closed (C22). Each   *)
(* file is read up to the damage, or - if a hint file lists its entries - as  *)
(* a whole, where reading a damaged entry is an error.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES fs,      \* file -> its entries <<key, value, tombstone, bytes>>
          good,    \* file -> how many of them come before the damage
          sure,    \* key -> value (0: absent) that every get gives from now on
          ever     \* key -> values it ever had
davars == <<fs, good, sure, ever>>
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Places(k) == {<<f, j>> : f \in DOMAIN fs, j \in 1..50} \cap UNION {{<<f, j>> : j \in {h \in 1..Len(fs[f]) : fs[f][h][1] = k}} : f \in DOMAIN fs}
After(a, b) == Lt(b[1], a[1]) \/ (a[1] = b[1] /\ a[2] > b[2])
Newest(P) == CHOOSE a \in P : \A b \in P : a = b \/ After(a, b)
Kept(n) == n[2] <= good[n[1]]
Value(n) == LET e == fs[n[1]][n[2]] IN IF e[3] = 1 THEN 0 ELSE e[2]
Error == -2
\* what a get may give. With H the files read as a whole; a damaged entry may not be readable.
\* any entry newer than the newest undamaged one may or may not be found
Possible(k) == LET P == Places(k)
                   K == {n \in P : Kept(n)}
                   D == {n \in P : ~Kept(n) /\ (K = {} \/ After(n, Newest(K)))} IN
               {Value(n) : n \in D} \cup (IF K = {} THEN {0} ELSE {Value(Newest(K))}) \cup (IF D = {} THEN {} ELSE {Error})
DaInit == fs = Empty /\ good = Empty /\ sure = Empty /\ ever = Empty
\* (what was damaged before stays so)
Damaged(F, g) == /\ fs' = [f \in DOMAIN F |-> At(fs, f, F[f])]
                 /\ good' = [f \in DOMAIN F |-> IF g[f] < At(good, f, g[f]) THEN g[f] ELSE At(good, f, g[f])]
                 /\ sure' = Empty /\ UNCHANGED ever
Store(k, v) == /\ sure' = Put(sure, k, v) /\ ever' = Put(ever, k, At(ever, k, {}) \cup {v}) /\ UNCHANGED <<fs, good>>
Get(k, r) == /\ IF k \in DOMAIN sure THEN r = sure[k] /\ UNCHANGED sure
                ELSE /\ r \in Possible(k)
                     /\ r \in {0, Error} \cup At(ever, k, {})
                     /\ sure' = IF r = Error THEN sure ELSE Put(sure, k, r)
             /\ UNCHANGED <<fs, good, ever>>
=============================================================================
