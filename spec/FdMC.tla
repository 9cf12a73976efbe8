-------------------------------- MODULE FdMC --------------------------------
(* All short programs over three owners and three descriptors, run by an         *)
(* implementation that closes what it gives up. Mutant: an implementation fault. *)
EXTENDS Fd, TLC
CONSTANT Mutant
VARIABLES opens, closes, n
mvars == <<fdvars, opens, closes, n>>
F == 1..3
K == 1..3
Count(f) == [g \in F |-> IF g = f THEN 1 ELSE 0]
MInit == FdInit /\ opens = [f \in F |-> 0] /\ closes = [f \in F |-> 0] /\ n = 0
Ops == [n : {"open"}] \cup [n : {"uclose"}, fd : F] \cup [n : {"new"}, k : K, fd : F \cup {-1}] \cup [n : {"movenew", "assign", "swap"}, k : K, j : K]
       \cup [n : {"release", "destroy"}, k : K] \cup [n : {"reset"}, k : K, fd : F \cup {-1}]
Can(c) == CASE c.n = "open" -> \E f \in F : f \notin DOMAIN st
            [] c.n = "uclose" -> c.fd \in Owned("user")
            [] c.n = "new" -> c.k \notin DOMAIN objs /\ c.fd \in Owned("user") \cup {-1}
            [] c.n = "movenew" -> c.k \notin DOMAIN objs /\ c.j \in DOMAIN objs
            [] c.n \in {"assign", "swap"} -> c.k \in DOMAIN objs /\ c.j \in DOMAIN objs
            [] c.n \in {"release", "destroy"} -> c.k \in DOMAIN objs
            [] c.n = "reset" -> c.k \in DOMAIN objs /\ c.fd \in Owned("user") \cup {-1}
Gets == {<<k, objs[k]>> : k \in DOMAIN objs}
MNext ==
  \/ \E c \in Ops : cur = None /\ n < 6 /\ Can(c) /\ Op(c) /\ n' = n + 1 /\ UNCHANGED <<opens, closes>>
  \/ cur.n = "open" /\ Owned("user") = Owned("user") /\ \E f \in F : opens[f] = closes[f] /\ (\A g \in F : opens[g] = closes[g] => g >= f)
                    /\ Opened(f) /\ opens' = [opens EXCEPT ![f] = @ + 1] /\ UNCHANGED <<closes, n>>
  \/ \E f \in Owned("closing") : ~(Mutant = "leak" /\ cur.n = "assign") /\ Closed(f) /\ closes' = [closes EXCEPT ![f] = @ + 1] /\ UNCHANGED <<opens, n>>
  \/ Mutant = "leak" /\ cur.n = "assign" /\ UNCHANGED <<st, objs, opens, closes, n>> /\ cur' = None
  \/ cur # None /\ End(Gets, [ok |-> 1, v |-> IF cur.n = "release" THEN cur.ret ELSE 0, code |-> 0]) /\ UNCHANGED <<opens, closes, n>>
Once == \A f \in F : opens[f] - closes[f] = (IF f \in DOMAIN st THEN 1 ELSE 0)
Single == \A k, j \in DOMAIN objs : k # j /\ objs[k] # -1 => objs[k] # objs[j]
Held == \A k \in DOMAIN objs : objs[k] # -1 => objs[k] \in DOMAIN st /\ st[objs[k]] = "obj"
Settled == cur = None => Owned("closing") = {} /\ \A f \in Owned("obj") : \E k \in DOMAIN objs : objs[k] = f
MSpec == MInit /\ [][MNext]_mvars
=============================================================================
