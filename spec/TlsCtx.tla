------------------------------- MODULE TlsCtx -------------------------------
(* Making TLS contexts from a configuration (C27): a context exists only when *)
(* every setting asked for was taken by the engine, in its final form; a      *)
(* refused setting leaves nothing behind; contexts are freed exactly once,    *)
(* by their last owner.                                                       *)
EXTENDS Integers, Sequences, SequencesExt
VARIABLES live,   \* contexts that exist
          cur,    \* the context being configured: [c, cfg, said] or [c |-> 0, ...]
          going   \* contexts whose owner is being destroyed or overwritten
ctxvars == <<live, cur, going>>
NoCfg == [srv |-> 0, cert |-> "", key |-> "", trust |-> "|", min |-> "", verify |-> "", list |-> "", suites |-> "", alpn |-> <<>>, bad |-> 0]
NoCtx == [c |-> -1, srv |-> 0, cfg |-> NoCfg, said |-> [x \in {} |-> 0], failed |-> {}, matched |-> FALSE]
CtxInit == live = {} /\ cur = NoCtx /\ going = {}
Ask(cfg) == cur.c = -1 /\ cur' = [NoCtx EXCEPT !.c = 0, !.cfg = cfg] /\ UNCHANGED <<live, going>>
NewCtx(c, srv) == /\ cur.c = 0 /\ srv = cur.cfg.srv /\ c \notin live
                  /\ cur' = [cur EXCEPT !.c = c, !.failed = IF c = 0 THEN {"new"} ELSE {}]
                  /\ live' = (IF c = 0 THEN live ELSE live \cup {c}) /\ UNCHANGED going
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Setting(f, a, ok) ==
   /\ cur.c > 0 /\ cur.failed \ {"default"} = {}                   \* nothing goes on after a refusal
   /\ cur' = [cur EXCEPT !.said = Put(@, f, <<a, ok>>), !.failed = IF ok THEN @ ELSE @ \cup {f},
                         !.matched = IF f = "check" THEN ok /\ {"cert", "key"} \cap DOMAIN cur.said = {x \in {"cert", "key"} : cur.cfg[x] # ""} ELSE @]
   /\ UNCHANGED <<live, going>>
Set(f, a) == f \in DOMAIN cur.said /\ cur.said[f] = <<a, TRUE>>
Flat(s) == FoldLeft(LAMBDA x, y: x \o y, "", s)
\* everything asked for is in force
InForce == LET g == cur.cfg IN
   /\ Set("min", g.min) /\ Set("options", "ktls") /\ Set("verify", g.verify)
   /\ (g.srv = 1 => Set("tickets", "0"))              \* messages after the handshake would reach the application
   /\ (g.cert # "" => Set("cert", g.cert)) /\ (g.key # "" => Set("key", g.key) /\ cur.matched)
   /\ (g.srv = 1 => g.cert # "" /\ g.key # "")
   /\ (g.trust # "|" => Set("trust", g.trust))
   /\ (g.trust = "|" /\ g.srv = 0 /\ g.verify # "0" => "default" \in DOMAIN cur.said)
   /\ (g.list # "" => Set("list", g.list)) /\ (g.suites # "" => Set("suites", g.suites))
   /\ (g.alpn # <<>> => g.bad = 0 /\ Set("alpn", Flat(g.alpn)))
Code(v) == \/ v = 4003 /\ (cur.failed \cap {"cert", "trust"} # {} \/ (cur.cfg.srv = 1 /\ (cur.cfg.cert = "" \/ cur.cfg.key = "")))
           \/ v = 4004 /\ cur.failed \cap {"key", "check"} # {}
           \/ v = 4001 /\ (cur.failed \cap {"new", "min", "list", "suites", "alpn"} # {} \/ cur.cfg.bad = 1)
Answer(ok, v, c) ==
   /\ cur.c # -1
   /\ IF ok THEN c = cur.c /\ c > 0 /\ c \in live /\ InForce ELSE cur.c \notin live /\ Code(v)
   /\ cur' = NoCtx /\ UNCHANGED <<live, going>>
FreeCtx(c) == /\ c \in live /\ (c = cur.c \/ c \in going) /\ live' = live \ {c} /\ going' = going \ {c} /\ UNCHANGED cur
Drop(c) == c \in live /\ going' = going \cup {c} /\ UNCHANGED <<live, cur>>
\* how: 0 assigns b over a, 1 assigns a to itself, 2 moves a to a new owner
Assign(a, b, how) == /\ cur.c = -1 /\ cur' = [NoCtx EXCEPT !.c = -2, !.srv = IF how = 0 THEN b ELSE a] /\ going' = (IF how = 0 THEN {a} ELSE {}) /\ UNCHANGED live
Assigned(now) == cur.c = -2 /\ now = cur.srv /\ now \in live /\ cur' = NoCtx /\ UNCHANGED <<live, going>>
Settled == going = {} /\ UNCHANGED ctxvars
Over == live = {} /\ going = {} /\ cur = NoCtx /\ UNCHANGED ctxvars
=============================================================================
