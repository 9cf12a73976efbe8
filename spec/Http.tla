-------------------------------- MODULE Http --------------------------------
(* The metrics endpoint: what it answers, when, and that it closes.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES cl, texts, fails, ncol, stopping
hvars == <<cl, texts, fails, ncol, stopping>>
MaxRequest == 8192
(* plan[c]: [tok: the request line's parts, h: length of the header with its end (0: never complete)]; *)
(* texts[k]: the text of the k-th scrape, fails[k]: the k-th scrape's collector fails                    *)
HInit(plan, t, f) == /\ cl = [c \in 1..Len(plan) |-> [p |-> plan[c], s |-> "new", got |-> 0, end |-> FALSE, werr |-> FALSE, wrote |-> 0]]
                     /\ texts = t /\ fails = f /\ ncol = 0 /\ stopping = FALSE
Complete(c) == cl[c].p.h > 0 /\ cl[c].got >= cl[c].p.h
Scrapes(c) == LET k == cl[c].p.tok IN Len(k) >= 3 /\ k[1] = "GET" /\ k[2] = "/metrics"
(* the status a request line calls for *)
Status(k, failed) == IF Len(k) < 3 THEN 400
                     ELSE IF k[1] # "GET" THEN 405
                     ELSE IF k[2] = "/metrics" THEN (IF failed THEN 500 ELSE 200)
                     ELSE IF k[2] \in {"/health", "/"} THEN 200
                     ELSE 404
Set(c, r) == cl' = [cl EXCEPT ![c] = r] /\ UNCHANGED <<texts, fails, stopping>>
Accept(c) == cl[c].s = "new" /\ Set(c, [cl[c] EXCEPT !.s = "open"]) /\ UNCHANGED ncol
Got(c, n) == cl[c].s = "open" /\ ~cl[c].end /\ ~Complete(c) /\ Set(c, [cl[c] EXCEPT !.got = @ + n]) /\ UNCHANGED ncol
End(c) == cl[c].s = "open" /\ ~Complete(c) /\ Set(c, [cl[c] EXCEPT !.end = TRUE]) /\ UNCHANGED ncol
(* one scrape per request that asks for it *)
Collect == /\ ncol < Cardinality({c \in DOMAIN cl : Scrapes(c) /\ Complete(c)})
           /\ ncol' = ncol + 1 /\ UNCHANGED <<cl, texts, fails, stopping>>
Wrote(c, n) == cl[c].s = "open" /\ Complete(c) /\ ~cl[c].werr /\ Set(c, [cl[c] EXCEPT !.wrote = @ + n]) /\ UNCHANGED ncol
WriteFailed(c) == cl[c].s = "open" /\ Complete(c) /\ ~cl[c].werr /\ Set(c, [cl[c] EXCEPT !.werr = TRUE]) /\ UNCHANGED ncol
(* a: what the client received: [n: bytes, code, len: the announced body length, blen: the body's length, body] *)
Good(c, a) ==
  \E k \in 0..ncol :
    /\ IF Scrapes(c) THEN k >= 1 ELSE k = 0
    /\ a.code = Status(cl[c].p.tok, k > 0 /\ fails[k])
    /\ a.len = a.blen
    /\ a.code = 200 /\ k > 0 => a.body = texts[k]
Closed(c, a) ==
  /\ cl[c].s = "open" /\ a.n = cl[c].wrote
  /\ \/ Complete(c) /\ (cl[c].werr \/ Good(c, a))
     \/ ~Complete(c) /\ a.n = 0 /\ (cl[c].end \/ cl[c].got > MaxRequest)
     \/ stopping
  /\ Set(c, [cl[c] EXCEPT !.s = "closed"]) /\ UNCHANGED ncol
Stop == stopping' = TRUE /\ UNCHANGED <<cl, texts, fails, ncol>>
(* nothing moves any more: everything that can be answered or closed has been *)
Quiet(conn) == /\ \A c \in DOMAIN cl : /\ c <= conn => cl[c].s # "new"
                                       /\ cl[c].s = "open" => ~Complete(c) /\ ~cl[c].end /\ cl[c].got <= MaxRequest
               /\ ncol = Cardinality({c \in DOMAIN cl : Scrapes(c) /\ Complete(c)})
               /\ UNCHANGED hvars
(* the server is gone: so are its connections and its listening socket *)
Final(left) == left = 0 /\ (\A c \in DOMAIN cl : cl[c].s \in {"new", "closed"}) /\ UNCHANGED hvars
=============================================================================
