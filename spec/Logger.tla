------------------------------- MODULE Logger -------------------------------
(* Messages go through a bounded queue to one writer.  A message is accepted    *)
(* unless its level is below the level in force, or the queue was full.         *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES cap, lvl, nlvl, pend, q, held, hand, must, flushing, busy
(* lvl, nlvl: level in force and the one being set (equal outside a change)      *)
(* pend: set of calls [t, m, ph, seen]; q: accepted, not yet taken; hand: taken, being written *)
(* must: what a flush in progress has to write; busy: a log call overlapped that flush *)
lvars == <<cap, lvl, nlvl, pend, q, held, hand, must, flushing, busy>>
Init0 == pend = {} /\ q = <<>> /\ held = 0 /\ hand = <<>> /\ must = {} /\ flushing = FALSE /\ busy = FALSE
Free == \A c \in pend : TRUE
LogStart(t, m) == /\ ~\E c \in pend : c.t = t
                  /\ pend' = pend \cup {[t |-> t, m |-> m, ph |-> "begun", seen |-> {lvl, nlvl}]}
                  /\ busy' = TRUE
                  /\ UNCHANGED <<cap, lvl, nlvl, q, held, hand, must, flushing>>
Passes(c) == \E l \in c.seen : l # 0 /\ c.m.lvl >= l
Filtered(c) == \E l \in c.seen : l = 0 \/ c.m.lvl < l
Decide(c, ph) == pend' = (pend \ {c}) \cup {[c EXCEPT !.ph = ph]}
Accept(c) == /\ c.ph = "begun" /\ Passes(c) /\ Len(q) + held < cap
             /\ q' = Append(q, c.m) /\ Decide(c, "done")
             /\ UNCHANGED <<cap, lvl, nlvl, held, hand, must, flushing, busy>>
Suppress(c) == /\ c.ph = "begun"
               /\ Filtered(c) \/ (Passes(c) /\ Len(q) + held = cap)
               /\ Decide(c, "done")
               /\ UNCHANGED <<cap, lvl, nlvl, q, held, hand, must, flushing, busy>>
LogEnd(t) == /\ \E c \in pend : c.t = t /\ c.ph = "done" /\ pend' = pend \ {c}
             /\ UNCHANGED <<cap, lvl, nlvl, q, held, hand, must, flushing, busy>>
Take == /\ hand = <<>> /\ q # <<>>
        /\ hand' = <<Head(q)>> /\ q' = Tail(q) /\ held' = held + 1
        /\ UNCHANGED <<cap, lvl, nlvl, pend, must, flushing, busy>>
GiveBack == /\ held > 0 /\ held' = held - 1
            /\ UNCHANGED <<cap, lvl, nlvl, pend, q, hand, must, flushing, busy>>
Write(m) == /\ hand = <<m>> /\ hand' = <<>> /\ must' = must \ {m} /\ held = 0
            /\ UNCHANGED <<cap, lvl, nlvl, pend, q, held, flushing, busy>>
SetStart(l) == /\ nlvl' = l /\ pend' = {[c EXCEPT !.seen = @ \cup {l}] : c \in pend}
               /\ UNCHANGED <<cap, lvl, q, held, hand, must, flushing, busy>>
SetEnd == lvl' = nlvl /\ UNCHANGED <<cap, nlvl, pend, q, held, hand, must, flushing, busy>>
Waiting == {q[j] : j \in 1..Len(q)} \cup {hand[j] : j \in 1..Len(hand)}
FlushStart == /\ ~flushing /\ flushing' = TRUE /\ must' = Waiting /\ busy' = (pend # {})
              /\ UNCHANGED <<cap, lvl, nlvl, pend, q, held, hand>>
FlushEnd == /\ flushing /\ (must = {} \/ busy) /\ flushing' = FALSE /\ must' = {}
            /\ UNCHANGED <<cap, lvl, nlvl, pend, q, held, hand, busy>>
(* nothing else can happen and nothing is left to write *)
QuietOk == q = <<>> /\ hand = <<>> /\ UNCHANGED lvars
Internal == (\E c \in pend : Accept(c) \/ Suppress(c)) \/ Take \/ GiveBack
---------------------------------------------------------------------------
CONSTANTS Threads, Levels, MaxMsgs, Cap
VARIABLES made, written, accepted
mvars == <<lvars, made, written, accepted>>
MCInit == Init0 /\ cap = Cap /\ lvl \in Levels /\ nlvl = lvl /\ made = [t \in Threads |-> 0] /\ written = <<>> /\ accepted = <<>>
MCNext ==
  \/ \E t \in Threads, l \in Levels \ {0} : /\ made[t] < MaxMsgs /\ LogStart(t, [id |-> t * 10 + made[t], lvl |-> l])
                                            /\ made' = [made EXCEPT ![t] = @ + 1] /\ UNCHANGED <<written, accepted>>
  \/ \E c \in pend : Accept(c) /\ accepted' = Append(accepted, c.m) /\ UNCHANGED <<made, written>>
  \/ \E c \in pend : Suppress(c) /\ UNCHANGED <<made, written, accepted>>
  \/ \E t \in Threads : LogEnd(t) /\ UNCHANGED <<made, written, accepted>>
  \/ (Take \/ GiveBack \/ FlushStart \/ FlushEnd \/ SetEnd) /\ UNCHANGED <<made, written, accepted>>
  \/ lvl = nlvl /\ (\E l \in Levels : SetStart(l)) /\ UNCHANGED <<made, written, accepted>>
  \/ hand # <<>> /\ Write(hand[1]) /\ written' = Append(written, hand[1]) /\ UNCHANGED <<made, accepted>>
MCSpec == MCInit /\ [][MCNext]_mvars
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
InvOrder == written \o hand \o q = accepted                       \* exactly once, whole, in order
InvThread == \A i, j \in 1..Len(written) : (i < j /\ written[i].id \div 10 = written[j].id \div 10) => written[i].id < written[j].id
InvBound == Len(q) + held <= cap
===========================================================================
