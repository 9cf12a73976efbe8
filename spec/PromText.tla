------------------------------ MODULE PromText ------------------------------
(* The Prometheus text exposition format, as a reader sees it: bytes to         *)
(* families.  Numbers are left as their token; what a token means is given.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
LF == 10
SP == 32
IsBlank(b) == b = 32 \/ b = 9
IsName0(b) == b \in 65..90 \/ b \in 97..122 \/ b = 95
IsNameC(b) == IsName0(b) \/ b \in 48..57
IsMetric0(b) == IsName0(b) \/ b = 58
IsMetricC(b) == IsNameC(b) \/ b = 58
(* first position >= p where P fails, or Len + 1 *)
RECURSIVE Span(_, _, _)
Span(P(_), t, p) == IF p <= Len(t) /\ P(t[p]) THEN Span(P, t, p + 1) ELSE p
Lines(t) == LET e == SelectSeq([j \in 1..Len(t) |-> j], LAMBDA j : t[j] = LF)
            IN [k \in 1..Len(e) |-> SubSeq(t, IF k = 1 THEN 1 ELSE e[k - 1] + 1, e[k] - 1)]
Bad == [ok |-> FALSE]
RECURSIVE UnHelp(_, _)
UnHelp(t, p) == IF p > Len(t) THEN <<>>
                ELSE IF t[p] = 92 /\ p < Len(t) /\ t[p + 1] = 92 THEN <<92>> \o UnHelp(t, p + 2)
                ELSE IF t[p] = 92 /\ p < Len(t) /\ t[p + 1] = 110 THEN <<10>> \o UnHelp(t, p + 2)
                ELSE <<t[p]>> \o UnHelp(t, p + 1)
(* quoted label value starting after its opening quote *)
RECURSIVE Quoted(_, _, _)
Quoted(t, p, acc) == IF p > Len(t) THEN Bad
                     ELSE IF t[p] = 34 THEN [ok |-> TRUE, v |-> acc, p |-> p + 1]
                     ELSE IF t[p] = 92 THEN
                        IF p = Len(t) THEN Bad
                        ELSE IF t[p + 1] = 92 THEN Quoted(t, p + 2, Append(acc, 92))
                        ELSE IF t[p + 1] = 34 THEN Quoted(t, p + 2, Append(acc, 34))
                        ELSE IF t[p + 1] = 110 THEN Quoted(t, p + 2, Append(acc, 10))
                        ELSE Bad
                     ELSE Quoted(t, p + 1, Append(acc, t[p]))
RECURSIVE Labels(_, _, _)
Labels(t, p0, acc) ==
  LET p == Span(IsBlank, t, p0) IN
  IF p > Len(t) THEN Bad
  ELSE IF t[p] = 125 THEN [ok |-> TRUE, v |-> acc, p |-> p + 1]
  ELSE IF ~IsName0(t[p]) THEN Bad
  ELSE LET e == Span(IsNameC, t, p)
           q == Span(IsBlank, t, e)
       IN IF q > Len(t) \/ t[q] # 61 THEN Bad
          ELSE LET q2 == Span(IsBlank, t, q + 1) IN
               IF q2 > Len(t) \/ t[q2] # 34 THEN Bad
               ELSE LET w == Quoted(t, q2 + 1, <<>>) IN
                    IF ~w.ok THEN Bad
                    ELSE LET n == SubSeq(t, p, e - 1)
                             r == Span(IsBlank, t, w.p)
                         IN IF r > Len(t) \/ (\E j \in 1..Len(acc) : acc[j][1] = n) THEN Bad
                            ELSE IF t[r] = 44 THEN Labels(t, r + 1, Append(acc, <<n, w.v>>))
                            ELSE IF t[r] = 125 THEN [ok |-> TRUE, v |-> Append(acc, <<n, w.v>>), p |-> r + 1]
                            ELSE Bad
(* a sample line: [ok, name, labels, num] *)
Sample(t) ==
  IF ~IsMetric0(t[1]) THEN Bad
  ELSE LET e == Span(IsMetricC, t, 1)
           p == Span(IsBlank, t, e)
           l == IF p <= Len(t) /\ t[p] = 123 THEN Labels(t, p + 1, <<>>) ELSE [ok |-> TRUE, v |-> <<>>, p |-> e]
       IN IF ~l.ok THEN Bad
          ELSE LET a == Span(IsBlank, t, l.p)
                   b == Span(LAMBDA x : ~IsBlank(x), t, a)
                   z == Span(IsBlank, t, b)
               IN IF a > Len(t) \/ z <= Len(t) \/ (l.v = <<>> /\ a = e) THEN Bad     \* no value, or something after it
                  ELSE [ok |-> TRUE, name |-> SubSeq(t, 1, e - 1), labels |-> {l.v[j] : j \in 1..Len(l.v)}, num |-> SubSeq(t, a, b - 1)]
Help == <<35, 32, 72, 69, 76, 80, 32>>
Type == <<35, 32, 84, 89, 80, 69, 32>>
Starts(t, x) == Len(t) >= Len(x) /\ SubSeq(t, 1, Len(x)) = x
MetaName(t) == LET e == Span(IsMetricC, t, 8) IN SubSeq(t, 8, e - 1)
MetaRest(t) == LET e == Span(IsMetricC, t, 8) IN IF e > Len(t) THEN <<>> ELSE SubSeq(t, e + 1, Len(t))
New(n) == [name |-> n, help |-> <<>>, type |-> <<>>, samples |-> <<>>]
Upd(f, r) == [f EXCEPT ![Len(f)] = r]
(* one line; f: families so far, <<>> in ok = FALSE *)
Line(st, t) ==
  IF ~st.ok \/ t = <<>> THEN st
  ELSE LET f == st.f IN
    IF Starts(t, Help) \/ Starts(t, Type) THEN
      LET n == MetaName(t)
          old == f # <<>> /\ Last(f).name = n
          g == IF old THEN f ELSE Append(f, New(n))
          r == Last(g)
          h == Starts(t, Help)
      IN IF n = <<>> \/ (\E x \in 1..Len(f) - 1 : f[x].name = n) \/ r.samples # <<>>
            \/ (h /\ r.help # <<>>) \/ (~h /\ r.type # <<>>) THEN [ok |-> FALSE, f |-> f]
         ELSE [ok |-> TRUE, f |-> Upd(g, IF h THEN [r EXCEPT !.help = <<UnHelp(MetaRest(t), 1)>>] ELSE [r EXCEPT !.type = MetaRest(t)])]
    ELSE IF t[1] = 35 THEN st
    ELSE LET s == Sample(t) IN
         IF ~s.ok \/ f = <<>> THEN [ok |-> FALSE, f |-> f]
         ELSE IF Last(f).name # s.name \/ Last(f).help = <<>> \/ Last(f).type = <<>> THEN [ok |-> FALSE, f |-> f]
         ELSE [ok |-> TRUE, f |-> Upd(f, [Last(f) EXCEPT !.samples = Append(@, [labels |-> s.labels, num |-> s.num])])]
ParseText(t) == IF t # <<>> /\ t[Len(t)] # LF THEN [ok |-> FALSE, f |-> <<>>] ELSE FoldLeft(Line, [ok |-> TRUE, f |-> <<>>], Lines(t))
============================================================================
