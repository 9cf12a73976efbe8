--------------------------------- MODULE Fd ---------------------------------
(* Ownership of descriptors.                                                    *)
(* st[fd]: who owns an open descriptor: "lib" (the library, in passing), "user", *)
(*   "obj" (an owner object), "closing" (given up: must be closed);              *)
(* objs[k]: the descriptor an owner object holds, -1 if none;                    *)
(* cur: the sequential operation in progress ("" if none).                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES st, objs, cur
fdvars == <<st, objs, cur>>
None == [n |-> ""]
FdInit == st = <<>> /\ objs = <<>> /\ cur = None
FPut(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
FDel(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Owned(o) == {f \in DOMAIN st : st[f] = o}
(* ---- what the system reports ---- *)
Opened(f) == f \notin DOMAIN st /\ st' = FPut(st, f, IF cur.n = "open" THEN "user" ELSE "lib") /\ UNCHANGED <<objs, cur>>
Closed(f) == f \in DOMAIN st /\ st[f] \in {"lib", "closing"} /\ st' = FDel(st, f) /\ UNCHANGED <<objs, cur>>
Used(f) == f \in DOMAIN st /\ UNCHANGED fdvars
(* a direct call of the library on a descriptor (bind, listen, ...) and its error *)
Sys(c) == /\ c.fd # -1 => c.fd \in DOMAIN st
          /\ cur' = IF cur.n = "server"
                    THEN [cur EXCEPT !.errs = IF c.err # 0 THEN @ \cup {c.err} ELSE @,
                                     !.bound = IF c.n = "bind" /\ c.err = 0 THEN FPut(@, c.fd, c.addr) ELSE @,
                                     !.listening = IF c.n = "listen" /\ c.err = 0 /\ c.arg = cur.backlog THEN @ \cup {c.fd} ELSE @]
                    ELSE IF c.err # 0 /\ cur.n \in {"tcpfd"} THEN [cur EXCEPT !.errs = @ \cup {c.err}] ELSE cur
          /\ UNCHANGED <<st, objs>>
(* ---- operations on owner objects ---- *)
Give(f) == IF f = -1 THEN st ELSE FPut(st, f, "closing")
Take(s, f) == IF f = -1 THEN s ELSE FPut(s, f, "obj")
Op(c) ==
  /\ cur = None
  /\ CASE c.n = "open"    -> st' = st /\ objs' = objs /\ cur' = [n |-> "open"]
       [] c.n = "uclose"  -> st[c.fd] = "user" /\ st' = FPut(st, c.fd, "closing") /\ objs' = objs /\ cur' = [n |-> "uclose"]
       [] c.n = "new"     -> /\ c.k \notin DOMAIN objs
                             /\ c.fd # -1 => st[c.fd] = "user"
                             /\ st' = Take(st, c.fd) /\ objs' = FPut(objs, c.k, c.fd) /\ cur' = [n |-> "new"]
       [] c.n = "movenew" -> c.k \notin DOMAIN objs /\ st' = st /\ objs' = FPut(FPut(objs, c.k, objs[c.j]), c.j, -1) /\ cur' = [n |-> c.n]
       [] c.n = "assign"  -> IF c.k = c.j THEN st' = st /\ objs' = objs /\ cur' = [n |-> c.n]
                             ELSE st' = Give(objs[c.k]) /\ objs' = FPut(FPut(objs, c.k, objs[c.j]), c.j, -1) /\ cur' = [n |-> c.n]
       [] c.n = "swap"    -> st' = st /\ objs' = [objs EXCEPT ![c.k] = objs[c.j], ![c.j] = objs[c.k]] /\ cur' = [n |-> c.n]
       [] c.n = "grow"    -> st' = st /\ objs' = objs /\ cur' = [n |-> c.n]
       [] c.n = "release" -> st' = (IF objs[c.k] = -1 THEN st ELSE FPut(st, objs[c.k], "user")) /\ objs' = FPut(objs, c.k, -1) /\ cur' = [n |-> c.n, ret |-> objs[c.k]]
       [] c.n = "reset"   -> st' = Take(Give(objs[c.k]), c.fd) /\ objs' = FPut(objs, c.k, c.fd) /\ cur' = [n |-> c.n]
       [] c.n = "destroy" -> st' = Give(objs[c.k]) /\ objs' = FDel(objs, c.k) /\ cur' = [n |-> c.n]
       [] c.n = "server"  -> st' = st /\ objs' = objs /\ cur' = [n |-> c.n, addr |-> c.addr, backlog |-> c.backlog, errs |-> {}, bound |-> <<>>, listening |-> {}]
       [] c.n = "tcpfd"   -> st' = st /\ objs' = objs /\ cur' = [n |-> c.n, errs |-> {}]
(* the operation has returned: what was given up is closed, and the objects hold what they should *)
End(gets, r) ==
  /\ cur # None /\ cur' = None
  /\ Owned("closing") = {}
  /\ \A k \in DOMAIN objs : \E g \in gets : g = <<k, objs[k]>>
  /\ Cardinality(gets) = Cardinality(DOMAIN objs)
  /\ cur.n = "release" => r.v = cur.ret
  /\ CASE cur.n = "server" -> /\ IF r.ok = 1 THEN r.v \in DOMAIN cur.bound /\ cur.bound[r.v] = cur.addr /\ r.v \in cur.listening
                                 ELSE r.code \in cur.errs
                              /\ Owned("lib") = (IF r.ok = 1 THEN {r.v} ELSE {})
                              /\ st' = (IF r.ok = 1 THEN FPut(st, r.v, "user") ELSE st)
       [] cur.n = "tcpfd"  -> /\ r.ok = 0 => r.code \in cur.errs
                              /\ Owned("lib") = (IF r.ok = 1 THEN {r.v} ELSE {})
                              /\ st' = (IF r.ok = 1 THEN FPut(st, r.v, "user") ELSE st)
       [] OTHER -> Owned("lib") = {} /\ st' = st
  /\ UNCHANGED objs
(* ---- with workers running ---- *)
Own(k, f) == f \in DOMAIN st /\ st[f] = "lib" /\ k \notin DOMAIN objs /\ st' = FPut(st, f, "obj") /\ objs' = FPut(objs, k, f) /\ UNCHANGED cur
Hand(f) == f \in DOMAIN st /\ st[f] = "lib" /\ st' = FPut(st, f, "user") /\ UNCHANGED <<objs, cur>>
Drop(k) == objs[k] # -1 /\ st' = FPut(st, objs[k], "closing") /\ UNCHANGED <<objs, cur>>
Dropped(k) == objs[k] \notin DOMAIN st /\ objs' = FDel(objs, k) /\ UNCHANGED <<st, cur>>
AskClose(f) == st[f] = "user" /\ st' = FPut(st, f, "closing") /\ UNCHANGED <<objs, cur>>
(* everything of the library's is gone: only what users and objects own is open *)
Quiet == Owned("lib") = {} /\ Owned("closing") = {} /\ UNCHANGED fdvars
=============================================================================
