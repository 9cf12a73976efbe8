----------------------------- MODULE RespTrace -----------------------------
EXTENDS Resp, TraceLib, TLC
VARIABLES run, i, last
tvars == <<buf, off, memo, lim, mx, s, prev, ntok, run, i, last>>
Ev == Runs[run].h[i]
Is(e) == i <= Len(Runs[run].h) /\ Ev.e = e
TInit == /\ run \in 1..Len(Runs) /\ i = 2
         /\ Runs[run].h[1].e = "init"
         /\ lim = Runs[run].h[1].max /\ mx = Runs[run].h[1].depth
         /\ buf = <<>> /\ off = 0 /\ memo = {} /\ s = <<>> /\ prev = <<>> /\ ntok = 0
         /\ last = [v |-> "none"]
Keep == UNCHANGED <<s, prev, ntok, run>> /\ i' = i + 1
KindOf(k) == CASE k = "SizeOverflow" -> "size" [] k = "MaxDepthReached" -> "depth" [] k \in {"MalformedFrame", "Atoi", "Unknown"} -> "other"
PFeed == Is("feed") /\ Feed(Ev.d) /\ UNCHANGED last
PNext == /\ Is("next")
         /\ \/ Ev.v = "more" /\ Answer([v |-> "more"], "more") /\ last' = [v |-> "more"]
            \/ Ev.v = "err" /\ Answer([v |-> "err", k |-> KindOf(Ev.k)], Ev.k) /\ last' = [v |-> "err"]
            \/ /\ Ev.v = "frame" /\ Ev.at = 0
               /\ \E x \in Parse(buf, 1, 0, lim, mx) :
                     /\ x.v = "frame" /\ x.ty = Ev.ty /\ x.n = Ev.n /\ x.cnt = Ev.cnt
                     /\ Ev.pay = (IF x.ty \in Agg THEN <<>> ELSE SubSeq(buf, x.ps + 1, x.ps + x.pn))
                     /\ Answer(x, <<x.ty, x.n>>) /\ last' = x
(* iteration over the frame at [at, at + n) of the buffer *)
PKids == /\ Is("kids") /\ last.v = "frame" /\ Ev.at + Ev.n <= Len(buf)
         /\ LET b == SubSeq(buf, 1, Ev.at + Ev.n)
                c == FindCrlf(b, Ev.at + 1)
                cnt == NumVal(Mag(SubSeq(b, Ev.at + 2, c - 1)))
                m == IF b[Ev.at + 1] \in Pairs THEN 2 * cnt ELSE cnt
            IN /\ b[Ev.at + 1] \in Agg
               /\ Len(Ev.ch) = m /\ Ev.end = "EoIter" /\ Ev.left = 0
               /\ \A j \in 1..m : LET q == IF j = 1 THEN c + 2 ELSE Ev.ch[j - 1][2] + Ev.ch[j - 1][3]
                                  IN /\ Ev.ch[j][2] = q
                                     /\ \E x \in Parse(b, Ev.ch[j][2], 0, lim, mx) :
                                          x.v = "frame" /\ x.ty = Ev.ch[j][1] /\ x.n = Ev.ch[j][3] /\ x.cnt = Ev.ch[j][4]
                                     /\ Ev.ch[j][5] = m - j + 1
         /\ UNCHANGED rvars /\ UNCHANGED last
PConsume == Is("consume") /\ last.v = "frame" /\ Ev.n = last.n /\ Consume(Ev.n) /\ Ev.rem = Len(buf') /\ last' = [v |-> "none"]
PPass == Is("pass") /\ Restart /\ last' = [v |-> "none"]
PEnd == Is("end") /\ UNCHANGED rvars /\ UNCHANGED last
TNext == (PFeed \/ PNext \/ PKids \/ PConsume \/ PPass \/ PEnd) /\ Keep
TSpec == TInit /\ [][TNext]_tvars
Track == TrackPos(run, i)
Accepted == AllAccepted
============================================================================
