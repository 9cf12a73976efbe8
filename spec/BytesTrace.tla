----------------------------- MODULE BytesTrace -----------------------------
EXTENDS Bytes, TraceLib, TLC
VARIABLES run, i
tvars == <<data, con, w, out, ghost, made, run, i>>
Ev == Runs[run].h[i]
TInit == /\ run \in 1..Len(Runs) /\ i = 1
         /\ data = <<>> /\ con = 0 /\ w = 0 /\ out = "ok" /\ ghost = <<>> /\ made = 0
(* the state the real buffer reports after the operation is the next state *)
Report == /\ Ev.rem = Len(Ev.rd) /\ Ev.empty = (IF Len(Ev.rd) = 0 THEN 1 ELSE 0)
          /\ data' = Ev.rd /\ w' = Ev.w /\ con' = Ev.c
          /\ out' = (IF Ev.ex = 1 THEN "ex" ELSE "ok")
Step == /\ i <= Len(Runs[run].h) /\ Ev.e = "op" /\ Report
        /\ CASE Ev.op = "new" -> New(Ev.n)
             [] Ev.op = "reserve" -> IF Ev.n < 2000000000 THEN Reserve(Ev.n) ELSE Rejected
             [] Ev.op = "extend" -> Extend(Ev.d)
             [] Ev.op = "commit" -> Commit(Ev.n, Ev.d)
             [] Ev.op = "advance" -> Advance(Ev.n)
             [] Ev.op = "peek" -> Peek(Ev.n, Ev.d)
             [] Ev.op = "compact" -> Compact
             [] Ev.op = "clear" -> Clear
             [] Ev.op \in {"copy", "move"} -> Copy
End == i <= Len(Runs[run].h) /\ Ev.e = "end" /\ UNCHANGED vars
TNext == (Step \/ End) /\ i' = i + 1 /\ UNCHANGED run
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
