-------------------------------- MODULE Xfer --------------------------------
(* Exact reads, exact writes and sendfile over a kernel that moves what it likes. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES tr
(* tr[x]: kind "r"|"w"|"s", pos (positional), n, off, in (moved in / for "s" read from the file), out (for "s"), *)
(* fl: request in flight ("no"|"x"|"in"|"out"), len, err: 0 | errno | -1 end of file *)
Put(x, v) == [y \in DOMAIN tr \cup {x} |-> IF y = x THEN v ELSE tr[y]]
XInit == tr = <<>>
Eof == -1
Stall == -2     \* a transfer of nothing that is not an end of file: some error
Call(x, k, p, n, off) == /\ x \notin DOMAIN tr
                         /\ tr' = Put(x, [k |-> k, pos |-> p, n |-> n, off |-> off, in |-> 0, out |-> 0, fl |-> "no", len |-> 0, err |-> 0])
(* a read or write request: the next bytes, from/to the right place in buffer and file *)
Issue(x, bufpos, len, stream, off) ==
  LET c == tr[x] IN
  /\ x \in DOMAIN tr /\ c.k \in {"r", "w"} /\ c.fl = "no" /\ c.err = 0
  /\ c.in < c.n /\ bufpos = c.in /\ len > 0 /\ len <= c.n - c.in
  /\ IF c.pos THEN ~stream /\ off = c.off + c.in ELSE stream
  /\ tr' = Put(x, [c EXCEPT !.fl = "x", !.len = len])
IssueIn(x, off, len) ==
  LET c == tr[x] IN
  /\ x \in DOMAIN tr /\ c.k = "s" /\ c.fl = "no" /\ c.err = 0
  /\ c.in < c.n /\ len > 0 /\ len <= c.n - c.in /\ off = c.off + c.in
  /\ tr' = Put(x, [c EXCEPT !.fl = "in", !.len = len])
IssueOut(x, len) ==
  LET c == tr[x] IN
  /\ x \in DOMAIN tr /\ c.k = "s" /\ c.fl = "no" /\ c.err = 0 /\ len > 0 /\ c.out < c.in
  /\ tr' = Put(x, [c EXCEPT !.fl = "out", !.len = len])
Moved(c, res) == IF res < 0 THEN [c EXCEPT !.fl = "no", !.err = -res]
                 ELSE IF c.fl = "out" THEN [c EXCEPT !.fl = "no", !.out = c.out + res, !.err = IF res = 0 THEN Stall ELSE 0]
                 ELSE [c EXCEPT !.fl = "no", !.in = c.in + res, !.err = IF res > 0 THEN 0 ELSE IF c.k = "w" THEN Stall ELSE Eof]
Comp(x, res) == /\ x \in DOMAIN tr /\ tr[x].fl # "no" /\ res <= tr[x].len /\ tr' = Put(x, Moved(tr[x], res))
(* something else the call needs failed (making the pipe) *)
Fail(x, e) == x \in DOMAIN tr /\ tr[x].err = 0 /\ tr[x].fl = "no" /\ tr' = Put(x, [tr[x] EXCEPT !.err = e])
DoneAll(c) == IF c.k = "s" THEN c.out = c.n ELSE c.in = c.n
Ret(x, ok, code, eof) ==
  LET c == tr[x] IN
  /\ x \in DOMAIN tr /\ c.fl = "no"
  /\ IF ok THEN c.err = 0 /\ DoneAll(c)
     ELSE c.err # 0 /\ (c.err > 0 => code = c.err) /\ (c.err = Eof => eof)
  /\ tr' = [y \in DOMAIN tr \ {x} |-> tr[y]]
Quiet == tr = <<>> /\ UNCHANGED tr
TypeOK == \A x \in DOMAIN tr : tr[x].out <= tr[x].in /\ tr[x].in <= tr[x].n
===========================================================================
