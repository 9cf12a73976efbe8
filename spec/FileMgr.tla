------------------------------ MODULE FileMgr ------------------------------
(* Files opened through the file manager: one worker per path, one kernel request *)
(* per operation, the kernel's answer to the caller.                              *)
(* 64-bit quantities are strings of digits.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES workers, bind, files, calls, due
fvars == <<workers, bind, files, calls, due>>
(* workers: the pool's threads; bind[key]: the thread that serves a path (key: the file it denotes);   *)
(* files[x]: an open file [fd, t]; calls[x]: a call in progress; due: descriptors given up, not yet closed *)
FInit(ws) == workers = ws /\ bind = <<>> /\ files = <<>> /\ calls = <<>> /\ due = {}
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
AtFdCwd == -100
OPENAT == 18
READ == 22
WRITE == 23
Call(x, c) == /\ x \notin DOMAIN calls
              /\ c.k # "open" => c.f \in DOMAIN files
              /\ calls' = Put(calls, x, [c |-> c, s |-> "called", u |-> 0, r |-> 0])
              /\ UNCHANGED <<workers, bind, files, due>>
(* the request the kernel sees is the one called for, and comes from the right thread *)
Sub(u, t, s) ==
  \E x \in DOMAIN calls :
    LET c == calls[x].c IN
    /\ calls[x].s = "called" /\ t \in workers
    /\ CASE c.k = "open"  -> /\ s.op = OPENAT /\ s.fd = AtFdCwd /\ s.path = c.path /\ s.fl = c.fl /\ s.len = c.mode
                             /\ c.key \in DOMAIN bind => bind[c.key] = t
                             /\ bind' = Put(bind, c.key, t)
         [] c.k = "read"  -> s.op = READ /\ s.fd = files[c.f].fd /\ s.addr = c.p /\ s.len = c.len /\ s.off = c.off /\ t = files[c.f].t /\ UNCHANGED bind
         [] c.k = "write" -> s.op = WRITE /\ s.fd = files[c.f].fd /\ s.addr = c.p /\ s.len = c.len /\ s.off = c.off /\ t = files[c.f].t /\ UNCHANGED bind
    /\ calls' = Put(calls, x, [calls[x] EXCEPT !.s = "sub", !.u = u])
    /\ UNCHANGED <<workers, files, due>>
Comp(u, r) == \E x \in DOMAIN calls : /\ calls[x].s = "sub" /\ calls[x].u = u
                                      /\ calls' = Put(calls, x, [calls[x] EXCEPT !.s = "comp", !.r = r])
                                      /\ UNCHANGED <<workers, bind, files, due>>
(* a successful open returns a file that owns the kernel's descriptor *)
Ret(x, ok, v, code) ==
  /\ x \in DOMAIN calls /\ calls[x].s = "comp"
  /\ ok = (calls[x].r >= 0)
  /\ ok => v = calls[x].r
  /\ ~ok => code = -calls[x].r
  /\ calls' = Del(calls, x)
  /\ files' = IF ok /\ calls[x].c.k = "open" THEN Put(files, x, [fd |-> v, t |-> bind[calls[x].c.key]]) ELSE files
  /\ UNCHANGED <<workers, bind, due>>
(* the file object is given up: its descriptor is closed once *)
Drop(x) == /\ x \in DOMAIN files /\ files' = Del(files, x) /\ due' = due \cup {files[x].fd}
           /\ \A y \in DOMAIN calls : calls[y].c.k # "open" => calls[y].c.f # x
           /\ UNCHANGED <<workers, bind, calls>>
(* y's file is moved over x's, which is given up (or was, before) *)
Assign(x, y) == /\ {x, y} \subseteq DOMAIN files /\ x # y
                /\ files' = Put(Del(files, y), x, files[y]) /\ due' = due \cup {files[x].fd}
                /\ UNCHANGED <<workers, bind, calls>>
Reset(x, y) == /\ x \notin DOMAIN files /\ y \in DOMAIN files
               /\ files' = Put(Del(files, y), x, files[y])
               /\ UNCHANGED <<workers, bind, calls, due>>
(* only a descriptor that was given up is closed, once *)
Close(fd) == fd \in due /\ due' = due \ {fd} /\ UNCHANGED <<workers, bind, files, calls>>
Quiet(open) == calls = <<>> /\ open = 0 /\ due = {} /\ UNCHANGED fvars
=============================================================================
