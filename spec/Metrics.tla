------------------------------ MODULE Metrics ------------------------------
(* Registry of collectors and scrapes.  Scrapes ask every registered collector *)
(* exactly once and combine what they report, in order, into one text.         *)
EXTENDS PromText
VARIABLES reg, regging, live
(* reg: registered; regging: registration in progress; live: scrapes [id, must, may, asked, fams, thr] *)
xvars == <<reg, regging, live>>
XInit == reg = {} /\ regging = {} /\ live = {}
RegStart(c) == /\ regging' = regging \cup {c} /\ UNCHANGED reg
               /\ live' = {[s EXCEPT !.may = @ \cup {c}] : s \in live}
RegEnd(c) == c \in regging /\ regging' = regging \ {c} /\ reg' = reg \cup {c} /\ UNCHANGED live
ScrapeStart(id) == /\ live' = live \cup {[id |-> id, must |-> reg, may |-> reg \cup regging, asked |-> {}, fams |-> <<>>, thr |-> FALSE]}
                   /\ UNCHANGED <<reg, regging>>
(* a family is created by the first who names it, and keeps the first max samples *)
AddSample(fs, x) ==      \* x: [name, labels, bits]
  LET k == CHOOSE j \in 1..Len(fs) : fs[j].name = x.name
  IN IF Len(fs[k].samples) < fs[k].max THEN [fs EXCEPT ![k].samples = Append(@, [labels |-> x.labels, bits |-> x.bits])] ELSE fs
AddFam(fs, n) == IF \E j \in 1..Len(fs) : fs[j].name = n.name THEN fs
                 ELSE Append(fs, [name |-> n.name, help |-> n.help, type |-> n.type, max |-> n.max, samples |-> <<>>])
Report(fs, fams, samples) ==
  FoldLeft(AddSample, FoldLeft(AddFam, fs, fams), [j \in 1..Len(samples) |-> [name |-> fams[samples[j].f].name, labels |-> samples[j].labels, bits |-> samples[j].bits]])
Collect(id, c, fams, samples, thr) ==
  \E s \in live : /\ s.id = id /\ c \in s.may /\ c \notin s.asked /\ ~s.thr
                  /\ live' = (live \ {s}) \cup {[s EXCEPT !.asked = @ \cup {c}, !.fams = Report(@, fams, samples), !.thr = thr]}
                  /\ UNCHANGED <<reg, regging>>
(* the text says what was reported; nums: what the number tokens read back as *)
Says(text, nums, fams) ==
  \E p \in {ParseText(text)} :
  /\ p.ok /\ Len(p.f) = Len(fams)
  /\ \A j \in 1..Len(fams) :
       LET a == p.f[j]
           b == fams[j]
       IN /\ a.name = b.name /\ a.help = <<b.help>> /\ a.type = b.type /\ Len(a.samples) = Len(b.samples)
          /\ \A k \in 1..Len(b.samples) : /\ a.samples[k].labels = b.samples[k].labels
                                          /\ \E m \in 1..Len(nums) : nums[m] = <<a.samples[k].num, b.samples[k].bits>>
ScrapeEnd(id, thr, text, nums) ==
  \E s \in live : /\ s.id = id /\ thr = s.thr
                  /\ thr \/ (s.must \subseteq s.asked /\ Says(text, nums, s.fams))
                  /\ live' = live \ {s} /\ UNCHANGED <<reg, regging>>
===========================================================================
