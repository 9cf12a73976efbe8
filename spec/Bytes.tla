------------------------------- MODULE Bytes -------------------------------
(* A growable byte FIFO.  data: bytes readable; con: consumed bytes still    *)
(* accounted for; w: bytes writable without growing; stray: what a writer    *)
(* last put into the writable area and committed.                            *)
EXTENDS Naturals, Sequences
CONSTANTS MaxLen, MaxN, ByteSet
VARIABLES data, con, w, out, ghost, made
(* out: result of the last operation; ghost: all bytes ever put minus cleared; made: how many of them were consumed *)
vars == <<data, con, w, out, ghost, made>>

Ok == out' = "ok"
Rejected == out' = "ex" /\ UNCHANGED <<data, con, w, ghost, made>>
Shift(c2) == c2 = con \/ c2 = 0                 \* an operation that may compact

New(cap) == /\ data' = <<>> /\ con' = 0 /\ w' >= cap /\ ghost' = <<>> /\ made' = 0 /\ Ok
Reserve(n) == /\ UNCHANGED <<data, ghost, made>> /\ Shift(con') /\ w' >= n /\ Ok
Extend(d) == /\ data' = data \o d /\ ghost' = ghost \o d /\ Shift(con') /\ w' >= 0 /\ UNCHANGED made /\ Ok
Commit(n, d) == IF n <= w
                THEN /\ data' = data \o d /\ ghost' = ghost \o d /\ w' = w - n /\ Len(d) = n /\ UNCHANGED <<con, made>> /\ Ok
                ELSE Rejected
Advance(n) == IF n <= Len(data)
              THEN /\ data' = SubSeq(data, n + 1, Len(data)) /\ con' = con + n /\ made' = made + n /\ UNCHANGED <<w, ghost>> /\ Ok
              ELSE Rejected
Peek(n, d) == IF n <= Len(data) THEN d = SubSeq(data, 1, n) /\ UNCHANGED <<data, con, w, ghost, made>> /\ Ok ELSE Rejected
Compact == con' = 0 /\ w' >= w /\ UNCHANGED <<data, ghost, made>> /\ Ok
Clear == data' = <<>> /\ con' = 0 /\ w' >= w /\ ghost' = <<>> /\ made' = 0 /\ Ok
Copy == UNCHANGED <<data, con, ghost, made>> /\ w' >= 0 /\ Ok
---------------------------------------------------------------------------
(* closed system *)
Cap == 0..MaxLen
Seqs(n) == UNION {[1..k -> ByteSet] : k \in 0..n}
MCInit == data = <<>> /\ con = 0 /\ w \in Cap /\ out = "ok" /\ ghost = <<>> /\ made = 0
Bounded == w' \in Cap /\ con' \in 0..MaxLen
MCNext == \/ \E n \in 0..MaxN : (w' \in Cap /\ con' \in {0, con} /\ Reserve(n))
          \/ \E d \in Seqs(MaxN) : Len(ghost) + Len(d) <= MaxLen /\ w' \in Cap /\ con' \in {0, con} /\ Extend(d)
          \/ \E d \in Seqs(MaxN) : Len(ghost) + Len(d) <= MaxLen /\ Commit(Len(d), d)
          \/ Commit(w + 1, <<>>)
          \/ \E n \in 0..MaxN : con + n <= MaxLen /\ Advance(n)
          \/ \E n \in 0..MaxN : Peek(n, SubSeq(data, 1, n))
          \/ (w' \in Cap /\ Compact) \/ (w' \in Cap /\ Clear) \/ (w' \in Cap /\ Copy)
MCSpec == MCInit /\ [][MCNext]_vars
(* FIFO: what is readable is exactly what was put and not consumed *)
InvFifo == data = SubSeq(ghost, made + 1, Len(ghost))
InvCounts == con <= made
StepReject == [][out' = "ex" => UNCHANGED <<data, con, w>>]_vars
===========================================================================
