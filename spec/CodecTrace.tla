----------------------------- MODULE CodecTrace -----------------------------
EXTENDS Codec, TraceLib, TLC
VARIABLES run, i
tvars == <<run, i>>
H == Runs[run].h
Ev == H[i]
Is(e) == i <= Len(H) /\ Ev.e = e
T == TLCEval(Table)
O == H[1].b           \* the encoding; empty: too long to be written down, then only its size and the kind of change count
Small == O # <<>>
Size == H[2].n
TInit == run \in 1..Len(Runs) /\ i = 2 /\ H[1].e = "init"
Whole == Ev.r = "ok" /\ Ev.n = Size /\ Ev.same = 1
(* a valid payload is the original one, or decodes to something else, or not at all *)
Agrees(s) == LET d == Decode(T, s) IN
             CASE d[1] = "valid" -> IF Small /\ d[2] = Size /\ SubSeq(s, 1, Size) = O THEN Whole ELSE Ev.r = "form" \/ (Ev.r = "ok" /\ Ev.n = d[2])
               [] OTHER -> Ev.r = d[1]
Size_ == Is("size") /\ (Small => Ev.n = Len(O)) /\ (Small => Decode(T, O) = <<"valid", Len(O)>>)
         /\ Ev.n >= Header + H[1].kl + H[1].vl
Rest == Is("tail") /\ Whole
Cut == Is("cut") /\ Ev.r = "more"
Flip == Is("flip") /\ (IF Small THEN Agrees([O EXCEPT ![Ev.at + 1] = @ ^^ Ev.m]) ELSE Ev.r # "ok" /\ (Ev.at \in 0..3 \/ Ev.at >= Header => Ev.r = "bad"))
Junk == Is("any") /\ Agrees(Ev.b)
Hint == Is("hint") /\ Ev.ok = 1
TNext == UNCHANGED run /\ i' = i + 1 /\ (Size_ \/ Rest \/ Cut \/ Flip \/ Junk \/ Hint)
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
=============================================================================
