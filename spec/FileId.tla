------------------------------- MODULE FileId -------------------------------
(* Identifiers of data files (C23): always larger than all before and than    *)
(* those of the files that exist. <<partition, time (two halves), number>>    *)
EXTENDS Naturals, Sequences
VARIABLES part, top
fivars == <<part, top>>
RECURSIVE Less(_, _, _)
Less(a, b, j) == IF j > Len(a) THEN FALSE ELSE a[j] < b[j] \/ (a[j] = b[j] /\ Less(a, b, j + 1))
FInit(p) == part = p /\ top = <<p, 0, 0, 0>>
Exists(id) == top' = (IF Less(top, id, 1) THEN id ELSE top) /\ UNCHANGED part
Next(id) == id[1] = part /\ Less(top, id, 1) /\ top' = id /\ UNCHANGED part
=============================================================================
