------------------------------ MODULE Request ------------------------------
(* What each single-shot call asks of the kernel and what it reports.             *)
(* 64-bit quantities are strings of digits; byte totals are <<high, low>> base 2^16. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES calls, tot
rvars == <<calls, tot>>
(* opcodes of the kernel's interface *)
OpOf == [accept |-> 13, acceptS |-> 13, read |-> 22, read_at |-> 22, write |-> 23, write_at |-> 23, readv |-> 1, writev |-> 2,
         connect |-> 16, open |-> 18, close |-> 19, fsync |-> 3, fdatasync |-> 3, fallocate |-> 17, truncate |-> 55,
         unlink |-> 36, poll |-> 6, sendmsg |-> 9, sleep |-> 11]
Kinds == DOMAIN OpOf
Minus1 == "18446744073709551615"
AtFdCwd == -100
(* s: the request as the kernel saw it; c: the caller's arguments *)
Asked(c, s) ==
  /\ s.op = OpOf[c.k]
  /\ CASE c.k \in {"accept", "acceptS"} -> s.fd = c.fd /\ s.addr = c.p /\ s.off = c.p2 /\ s.fl = 0 /\ s.len = "0"
       [] c.k \in {"read", "write"}     -> s.fd = c.fd /\ s.addr = c.p /\ s.len = c.len /\ s.off = Minus1 /\ s.fl = 0
       [] c.k \in {"read_at", "write_at", "readv", "writev"} -> s.fd = c.fd /\ s.addr = c.p /\ s.len = c.len /\ s.off = c.off /\ s.fl = 0
       [] c.k = "connect"   -> s.fd = c.fd /\ s.addr = c.p /\ s.off = c.len
       [] c.k = "open"      -> s.fd = AtFdCwd /\ s.path = c.path /\ s.fl = c.fl /\ s.len = c.len
       [] c.k = "close"     -> s.fd = c.fd
       [] c.k = "fsync"     -> s.fd = c.fd /\ s.fl = 0 /\ s.off = "0" /\ s.len = "0"
       [] c.k = "fdatasync" -> s.fd = c.fd /\ s.fl = 1 /\ s.off = "0" /\ s.len = "0"
       [] c.k = "fallocate" -> s.fd = c.fd /\ s.len = c.len /\ s.off = "0" /\ s.addr = c.off
       [] c.k = "truncate"  -> s.fd = c.fd /\ s.off = c.off
       [] c.k = "unlink"    -> s.fd = c.fd /\ s.path = c.path /\ s.fl = c.fl
       [] c.k = "poll"      -> s.fd = c.fd /\ s.fl = c.fl
       [] c.k = "sendmsg"   -> s.fd = c.fd /\ s.addr = c.p /\ s.fl = c.fl /\ s.len = "1"
       [] c.k = "sleep"     -> s.dur = c.off /\ s.off = "0" /\ s.fl = 0
(* categories documented in errors.h *)
Network == {11, 103, 104, 111, 32, 14, 22, 100, 101, 102, 115, 106, 107, 88, 89, 90, 93, 98, 99, 110, 113, 112}
FileCat == {2, 13, 17, 21, 20, 36, 30, 9, 5, 28, 29, 27, 39, 18}
SysCat == {12, 24, 23, 35, 37, 38, 125, 130, 131}
DevCat == {19, 6, 16}
Category(e) == IF e \in Network THEN 1 ELSE IF e \in FileCat THEN 2 ELSE IF e \in SysCat THEN 3 ELSE IF e \in DevCat THEN 4 ELSE 9
ETIME == 62
Ok(c, r) == r >= 0 \/ (c.k = "sleep" /\ r = -ETIME)
Counted == {"accept", "acceptS", "read", "read_at", "readv", "write", "write_at", "writev", "connect", "open", "sendmsg"}
HasValue == {"accept", "acceptS", "read", "read_at", "readv", "write", "write_at", "writev", "open"}
Zero == [br |-> <<0, 0>>, bw |-> <<0, 0>>, rd |-> 0, wr |-> 0, ac |-> 0, op |-> 0, co |-> 0]
Add(x, n) == LET lo == x[2] + (n % 65536) IN <<x[1] + (n \div 65536) + (lo \div 65536), lo % 65536>>
Count(t, c, r) ==
  IF r < 0 THEN t
  ELSE CASE c.k \in {"read", "read_at", "readv"} -> [t EXCEPT !.br = Add(t.br, r), !.rd = t.rd + 1]
         [] c.k \in {"write", "write_at", "writev", "sendmsg"} -> [t EXCEPT !.bw = Add(t.bw, r), !.wr = t.wr + 1]
         [] c.k \in {"accept", "acceptS"} -> [t EXCEPT !.ac = t.ac + 1]
         [] c.k = "open" -> [t EXCEPT !.op = t.op + 1]
         [] c.k = "connect" -> [t EXCEPT !.co = t.co + 1]
         [] OTHER -> t
(* ---------------------------------------------------------------- actions *)
Put(x, v) == [y \in DOMAIN calls \cup {x} |-> IF y = x THEN v ELSE calls[y]]
RInit == calls = <<>> /\ tot = Zero
Call(x, c) == x \notin DOMAIN calls /\ c.k \in Kinds /\ calls' = Put(x, [c |-> c, s |-> "called", u |-> "", r |-> 0]) /\ UNCHANGED tot
(* a request nobody asked for fits no call *)
Sub(u, s) == \E x \in DOMAIN calls : /\ calls[x].s = "called" /\ Asked(calls[x].c, s)
                                     /\ calls' = Put(x, [calls[x] EXCEPT !.s = "sub", !.u = u]) /\ UNCHANGED tot
(* everything the request points to is still there, unchanged *)
Comp(u, r, alive) == /\ alive
                     /\ \E x \in DOMAIN calls : calls[x].s = "sub" /\ calls[x].u = u
                                                /\ calls' = Put(x, [calls[x] EXCEPT !.s = "comp", !.r = r]) /\ UNCHANGED tot
Ret(x, ok, v, code, cat, t) ==
  /\ x \in DOMAIN calls /\ calls[x].s = "comp"
  /\ LET c == calls[x].c
         r == calls[x].r IN
     /\ ok = Ok(c, r)
     /\ ok => (c.k \in HasValue => v = r)
     /\ ~ok => code = -r /\ cat = Category(-r)
     /\ tot' = Count(tot, c, r) /\ t = tot'
  /\ calls' = [y \in DOMAIN calls \ {x} |-> calls[y]]
Quiet == calls = <<>> /\ UNCHANGED rvars
===========================================================================
