----------------------------- MODULE MetricsMC -----------------------------
(* Checked: reading back what a correct writer produces gives the families     *)
(* reported (for all label and help texts over an awkward alphabet), a writer  *)
(* that forgets an escape is noticed, and scrapes ask each collector once.     *)
EXTENDS Metrics
CONSTANTS Alpha, MaxLen, Ids, Scrapes
RECURSIVE Esc(_, _)
Esc(t, q) == IF t = <<>> THEN <<>>
             ELSE (IF Head(t) = 92 THEN <<92, 92>> ELSE IF Head(t) = 10 THEN <<92, 110>> ELSE IF q /\ Head(t) = 34 THEN <<92, 34>> ELSE <<Head(t)>>) \o Esc(Tail(t), q)
M == <<109>>
Write(h, v) == Help \o M \o <<32>> \o Esc(h, FALSE) \o <<10>> \o Type \o M \o <<32, 103, 10>>
               \o M \o <<123, 97, 61, 34>> \o Esc(v, TRUE) \o <<34, 125, 32, 49, 10, 10>>
Texts == UNION {[1..n -> Alpha] : n \in 0..MaxLen}
RoundTrip == \A h \in Texts, v \in Texts :
   Says(Write(h, v), << <<<<49>>, "one">> >>, <<[name |-> M, help |-> h, type |-> <<103>>, max |-> 1, samples |-> <<[labels |-> {<< <<97>>, v>>}, bits |-> "one"]>>]>>)
ASSUME RoundTrip
VARIABLE done
MCInit == XInit /\ done = {}
MCNext == \/ \E c \in Ids : c \notin reg \cup regging /\ RegStart(c) /\ UNCHANGED done
          \/ \E c \in regging : RegEnd(c) /\ UNCHANGED done
          \/ \E x \in Scrapes : x \notin done /\ ~(\E s \in live : s.id = x) /\ ScrapeStart(x) /\ UNCHANGED done
          \/ \E s \in live, c \in Ids, t \in BOOLEAN :
                Collect(s.id, c, <<[name |-> <<109>>, help |-> <<>>, type |-> <<103>>, max |-> 1]>>, <<[f |-> 1, bits |-> "x", labels |-> {}]>>, t) /\ UNCHANGED done
          \/ \E s \in live : /\ s.thr \/ s.must \subseteq s.asked
                             /\ done' = done \cup {s.id} /\ live' = live \ {s} /\ UNCHANGED <<reg, regging>>
MCSpec == MCInit /\ [][MCNext]_<<xvars, done>>
InvAsk == \A s \in live : s.asked \subseteq reg \cup regging /\ (s.asked # {} => Len(s.fams) = 1 /\ Len(s.fams[1].samples) = 1)
===========================================================================
