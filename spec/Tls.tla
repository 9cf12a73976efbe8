-------------------------------- MODULE Tls --------------------------------
(* TLS streams over an engine that answers each step with "done", "I need to  *)
(* read", "I need to write" or a failure (C26).                               *)
(* A handshake or shutdown is a sequence of engine steps; after "need to      *)
(* read/write" the next thing that happens to the stream is a wait for        *)
(* exactly that readiness.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES e,      \* engine object -> [fd, role, mode: "idle"|"hs"|"sd", ph, want, cnt, err, done, tx, rx, pend, nx, need, named]
          st,     \* stream -> [s, fd, up, ip, port, going]
          fds,    \* open descriptors -> [role, need, next]
          ops,    \* operation in progress -> [k, o, n, h, fd, ph, r, bs]
          reqs,   \* kernel request in progress -> [k, fd, x]
          why,    \* descriptor -> error its engine failed with
          env     \* [tiny, stop, refused, mk, lis]
tlsvars == <<e, st, fds, ops, reqs, why, env>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Empty == [x \in {} |-> 0]
HANDSHAKE == 4000  NOKTLS == 4002  SHUTDOWN == 4011  EAGAIN == 11  MaxSteps == 10
Anything == -1
NoListener == [on |-> FALSE, fd |-> -1, ip |-> "", port |-> 0, q |-> 0, bound |-> FALSE, open |-> FALSE]
TlsInit(tiny) == e = Empty /\ st = Empty /\ fds = Empty /\ ops = Empty /\ reqs = Empty /\ why = Empty
                 /\ env = [tiny |-> tiny, stop |-> FALSE, refused |-> FALSE, mk |-> [o |-> 0, fd |-> -1], lis |-> NoListener, er |-> {}]
Owner(fd) == {o \in DOMAIN st : st[o].fd = fd /\ fd # -1}
OwnerOf(s) == {o \in DOMAIN st : st[o].s = s}
\* the stream still has the socket: the number may be another's by now
Current(s) == \A o \in OwnerOf(s) : st[o].fd = e[s].fd
Fail(fd, v) == why' = Put(why, fd, v)

\* ---- descriptors
Opened(fd) == /\ fd \notin DOMAIN fds /\ fds' = Put(fds, fd, [role |-> "", need |-> "", next |-> 0]) /\ why' = Without(why, fd)
              /\ env' = IF env.lis.on THEN [env EXCEPT !.lis.fd = fd] ELSE env
              /\ UNCHANGED <<e, st, ops, reqs>>
BeingClosed(fd) == \/ \E u \in DOMAIN reqs : reqs[u].k = "close" /\ reqs[u].fd = fd
                   \/ \E o \in Owner(fd) : st[o].going
                   \/ \E x \in DOMAIN ops : ops[x].k = "close" /\ ops[x].fd = fd
Closed(fd) == /\ fd \in DOMAIN fds
              /\ Owner(fd) = {} \/ BeingClosed(fd)
              /\ fds' = Without(fds, fd)
              /\ st' = [o \in DOMAIN st |-> IF o \in Owner(fd) THEN [st[o] EXCEPT !.fd = -1] ELSE st[o]]
              /\ UNCHANGED <<e, ops, reqs, why, env>>
Peer(fd, ip, port) == /\ fd \in DOMAIN fds /\ fds' = [fds EXCEPT ![fd] = [role |-> "accept", need |-> "", next |-> 0, ip |-> ip, port |-> port]]
                      /\ UNCHANGED <<e, st, ops, reqs, why, env>>

\* ---- engine objects
New(s) == /\ s \notin DOMAIN e /\ e' = Put(e, s, [fd |-> -1, role |-> "", mode |-> "idle", ph |-> "", want |-> "", cnt |-> 0, err |-> 0, done |-> FALSE, tx |-> FALSE, rx |-> FALSE,
                                                    pend |-> 0, nx |-> 0, need |-> "", named |-> {}])
          /\ UNCHANGED <<st, fds, ops, reqs, why, env>>
Refused == env' = [env EXCEPT !.refused = TRUE] /\ UNCHANGED <<e, st, fds, ops, reqs, why>>
SetFd(s, fd) == /\ s \in DOMAIN e /\ fd \in DOMAIN fds /\ fds[fd].role # "" /\ \A t \in DOMAIN e : t # s /\ e[t].fd = fd => ~Current(t)
                /\ e' = [e EXCEPT ![s].fd = fd, ![s].role = fds[fd].role, ![s].need = fds[fd].need,
                                  ![s].mode = IF fd = env.mk.fd THEN "idle" ELSE "hs", ![s].ph = "ready"]
                /\ UNCHANGED <<st, fds, ops, reqs, why, env>>
Free(s) == /\ s \in DOMAIN e /\ \A o \in OwnerOf(s) : st[o].going
           /\ e' = Without(e, s) /\ UNCHANGED <<st, fds, ops, reqs, why, env>>
Make(o, fd, role, ip, port) == /\ o \notin DOMAIN st /\ fd \in DOMAIN fds /\ fds' = [fds EXCEPT ![fd].role = role]
                               /\ env' = [env EXCEPT !.mk = [o |-> o, fd |-> fd, ip |-> ip, port |-> port]]
                               /\ UNCHANGED <<e, st, ops, reqs, why>>
NewStream(s, fd, up, ip, port) == [s |-> s, fd |-> fd, up |-> up, ip |-> ip, port |-> port, going |-> FALSE]
Made(o, ok, s) == /\ IF ok THEN s \in DOMAIN e /\ e[s].fd = env.mk.fd /\ st' = Put(st, o, NewStream(s, env.mk.fd, FALSE, env.mk.ip, env.mk.port))
                           ELSE env.refused /\ env.mk.fd \notin DOMAIN fds /\ (\A t \in DOMAIN e : e[t].fd # env.mk.fd) /\ UNCHANGED st
                  /\ env' = [env EXCEPT !.mk = [o |-> 0, fd |-> -1], !.refused = FALSE] /\ UNCHANGED <<e, fds, ops, reqs, why>>

\* ---- engine steps
Name(s, op, h, ok) ==
   /\ s \in DOMAIN e /\ e[s].mode = "hs" /\ e[s].ph = "ready" /\ e[s].role = "connect" /\ h = e[s].need
   /\ e' = [e EXCEPT ![s].named = IF ok THEN @ \cup {op} ELSE @, ![s].err = IF ok THEN @ ELSE Anything]
   /\ (IF ok THEN UNCHANGED why ELSE Fail(e[s].fd, Anything))
   /\ UNCHANGED <<st, fds, ops, reqs, env>>
SysErr(er) == IF er = 0 THEN 104 ELSE er
HsErr(w, er) == IF w = "sys" THEN SysErr(er) ELSE HANDSHAKE
Shake(s, op, r, w, er, tx, rx, pd) ==
   LET E == e[s] IN
   /\ E.mode = "hs" /\ E.ph = "ready" /\ op = E.role /\ E.fd \in DOMAIN fds /\ Current(s)
   /\ E.need # "" => "host" \in E.named                 \* whoever answers is checked against the name asked for
   /\ IF r = 1 THEN /\ e' = [e EXCEPT ![s].ph = "done", ![s].done = TRUE, ![s].tx = tx, ![s].rx = rx, ![s].pend = pd]
                    /\ (IF tx /\ rx THEN UNCHANGED why ELSE Fail(E.fd, NOKTLS))
      ELSE IF w \in {"r", "w"} THEN e' = [e EXCEPT ![s].ph = "want", ![s].want = w] /\ UNCHANGED why
      ELSE e' = [e EXCEPT ![s].ph = "dead", ![s].err = HsErr(w, er)] /\ Fail(E.fd, HsErr(w, er))
   /\ UNCHANGED <<st, fds, ops, reqs, env>>
Shut(s, r, w) ==
   LET E == e[s] IN
   /\ E.mode = "sd" /\ E.ph = "ready" /\ E.cnt < MaxSteps /\ E.fd \in DOMAIN fds /\ OwnerOf(s) # {} /\ Current(s)
   /\ e' = [e EXCEPT ![s].cnt = @ + 1,
                     ![s].ph = IF r = 1 \/ (r = -1 /\ w \in {"zero", "sys"}) THEN "done" ELSE IF r = 0 \/ w \in {"r", "w"} THEN "want" ELSE "dead",
                     ![s].want = IF r = 0 THEN "r" ELSE w]
   /\ UNCHANGED <<st, fds, ops, reqs, why, env>>
Range(a, n) == [j \in 1..n |-> a + j]
Buffered(s, r, pd) ==
   /\ \E x \in DOMAIN ops : /\ ops[x].k = "read" /\ ops[x].ph = 0 /\ st[ops[x].o].s = s
                            /\ IF r > 0 THEN ops' = [ops EXCEPT ![x].ph = 2, ![x].r = r, ![x].bs = Range(e[s].nx, r)] ELSE UNCHANGED ops
   /\ e' = [e EXCEPT ![s].nx = @ + (IF r > 0 THEN r ELSE 0), ![s].pend = pd]
   /\ UNCHANGED <<st, fds, reqs, why, env>>
Engine(s, op, r, w, er, tx, rx, pd) ==
   /\ s \in DOMAIN e
   /\ CASE op \in {"connect", "accept"} -> Shake(s, op, r, w, er, tx, rx, pd)
        [] op = "shutdown" -> Shut(s, r, w)
        [] op = "read" -> Buffered(s, r, pd)

\* ---- kernel requests
On(fd) == {s \in DOMAIN e : e[s].fd = fd}
ShutOver(s) == e[s].mode # "sd" \/ e[s].ph \in {"done", "dead", "bad"} \/ e[s].cnt >= MaxSteps \/ env.stop \/ env.tiny
Request(u, k, fd, m, a) ==
   CASE k = "poll" -> \E s \in On(fd) : /\ e[s].ph = "want" /\ m = (IF e[s].want = "r" THEN 1 ELSE 2)
                                        /\ e' = [e EXCEPT ![s].ph = "polling"] /\ reqs' = Put(reqs, u, [k |-> k, fd |-> fd, x |-> s])
                                        /\ UNCHANGED <<st, fds, ops, why, env>>
     [] k \in {"read", "write"} -> \E x \in DOMAIN ops : LET O == ops[x] S == st[O.o] IN
                                        /\ O.k = k /\ O.ph = 0 /\ S.fd = fd
                                        /\ (IF k = "write" THEN m = O.n ELSE (O.n > 0 => m > 0) /\ (O.n < 1073741824 => m = O.n))
                                        /\ (k = "read" /\ O.n > 0 /\ S.s # 0) => e[S.s].pend = 0     \* what the engine holds comes first
                                        /\ ops' = [ops EXCEPT ![x].ph = 1] /\ reqs' = Put(reqs, u, [k |-> k, fd |-> fd, x |-> x])
                                        /\ UNCHANGED <<e, st, fds, why, env>>
     [] k = "close" -> \E x \in DOMAIN ops : LET O == ops[x] IN
                                        /\ O.k = "close" /\ O.ph = 0 /\ st[O.o].fd = fd /\ fd # -1 /\ ShutOver(st[O.o].s)
                                        /\ ops' = [ops EXCEPT ![x].ph = 1] /\ reqs' = Put(reqs, u, [k |-> k, fd |-> fd, x |-> x])
                                        /\ UNCHANGED <<e, st, fds, why, env>>
     [] k = "accept" -> \E x \in DOMAIN ops : ops[x].k = "acc" /\ ops[x].ph = 0 /\ ops' = [ops EXCEPT ![x].ph = 1] /\ reqs' = Put(reqs, u, [k |-> k, fd |-> fd, x |-> x])
                                        /\ fd = env.lis.fd /\ UNCHANGED <<e, st, fds, why, env>>
     [] k = "connect" -> \E x \in DOMAIN ops : /\ ops[x].k = "con" /\ ops[x].ph = 0 /\ a = ops[x].to
                                        /\ ops' = [ops EXCEPT ![x].ph = 1, ![x].fd = fd] /\ reqs' = Put(reqs, u, [k |-> k, fd |-> fd, x |-> x])
                                        /\ fds' = [fds EXCEPT ![fd].role = "connect", ![fd].need = ops[x].h]
                                        /\ UNCHANGED <<e, st, why, env>>
     [] OTHER -> FALSE
Complete(u, r) ==
   /\ u \in DOMAIN reqs /\ reqs' = Without(reqs, u)
   /\ LET q == reqs[u] IN
      CASE q.k = "poll" -> /\ IF q.x \notin DOMAIN e THEN UNCHANGED <<e, why>>
                              ELSE IF r >= 0 THEN e' = [e EXCEPT ![q.x].ph = "ready"] /\ UNCHANGED why
                              ELSE /\ e' = [e EXCEPT ![q.x].ph = IF e[q.x].mode = "hs" THEN "dead" ELSE "bad", ![q.x].err = -r]
                                   /\ (IF e[q.x].mode = "hs" THEN Fail(q.fd, -r) ELSE UNCHANGED why)
                           /\ UNCHANGED <<st, fds, ops, env>>
        [] q.k = "read" -> /\ ops' = [ops EXCEPT ![q.x].ph = 2, ![q.x].r = r, ![q.x].bs = IF r > 0 THEN Range(fds[q.fd].next, r) ELSE <<>>]
                           /\ fds' = (IF r > 0 THEN [fds EXCEPT ![q.fd].next = @ + r] ELSE fds) /\ UNCHANGED <<e, st, why, env>>
        [] q.k \in {"write", "close"} -> ops' = [ops EXCEPT ![q.x].ph = 2, ![q.x].r = r] /\ UNCHANGED <<e, st, fds, why, env>>
        [] OTHER -> ops' = [ops EXCEPT ![q.x].ph = 2, ![q.x].r = r, ![q.x].fd = IF q.k = "accept" THEN r ELSE @] /\ UNCHANGED <<e, st, fds, why, env>>

\* ---- operations
\* the addresses used, and what names stand for
Address(h) == IF h = "host.test" THEN "10.9.8.7" ELSE h
Known == {"127.0.0.1", "0.0.0.0", "10.1.2.3", "::1", "fe80::1:2", "host.test"}
Call(x, k, o, n, h, port) ==
   /\ x \notin DOMAIN ops
   /\ ops' = Put(ops, x, [k |-> k, o |-> o, n |-> n, h |-> h, fd |-> IF o \in DOMAIN st THEN st[o].fd ELSE -1, ph |-> 0, r |-> 0, bs |-> <<>>,
                          to |-> IF k = "con" THEN Address(h) \o ":" \o port ELSE ""])
   /\ e' = (IF k \in {"hs", "shut", "close"} /\ st[o].s # 0
            THEN LET E == e[st[o].s]
                     sd == k # "hs" /\ st[o].up /\ st[o].fd # -1
                     hs == k = "hs" /\ ~st[o].up IN
                 [e EXCEPT ![st[o].s] = [E EXCEPT !.mode = IF hs THEN "hs" ELSE IF sd THEN "sd" ELSE "idle", !.ph = "ready", !.cnt = 0, !.err = 0,
                                                  !.need = IF hs /\ E.role = "connect" THEN h ELSE "", !.named = {}]]
            ELSE e)
   /\ UNCHANGED <<st, fds, reqs, why, env>>
Excused(ok, v) == ~ok /\ (env.stop \/ (env.tiny /\ v \in {-2, EAGAIN}))
Because(fd, v) == fd \in DOMAIN why /\ why[fd] \in {v, Anything}
Ret(x, ok, v, bs) ==
   LET O == ops[x] IN
   /\ x \in DOMAIN ops /\ ops' = Without(ops, x)
   /\ CASE O.k = "hs" -> LET S == st[O.o] E == e[S.s] IN
             /\ IF ok THEN S.up \/ (E.mode = "hs" /\ E.ph = "done" /\ E.done /\ E.tx /\ E.rx /\ E.err = 0)
                ELSE Excused(ok, v) \/ (~S.up /\ Because(E.fd, v)) \/ (S.fd = -1 /\ ~S.up)
             /\ st' = [st EXCEPT ![O.o].up = ok \/ @]
             /\ e' = [e EXCEPT ![S.s].mode = "idle"]
             /\ UNCHANGED <<fds, env>>
        [] O.k = "shut" -> LET S == st[O.o] IN
             /\ IF S.s = 0 THEN ok ELSE LET E == e[S.s] IN
                IF E.mode # "sd" THEN ok
                ELSE IF ok THEN E.ph \in {"done", "bad"} \/ E.cnt >= MaxSteps \/ env.stop \/ (env.tiny /\ E.ph = "want")
                ELSE Excused(ok, v) \/ (E.ph = "dead" /\ v = SHUTDOWN) \/ (E.ph = "bad" /\ v = E.err)
             /\ e' = (IF S.s = 0 THEN e ELSE [e EXCEPT ![S.s].mode = "idle"]) /\ UNCHANGED <<st, fds, env>>
        [] O.k = "close" -> LET S == st[O.o] IN
             /\ ok \/ (O.ph = 2 /\ O.r < 0) \/ Excused(ok, v)
             /\ ok => /\ S.fd = -1
                      /\ S.s # 0 => ShutOver(S.s)
             /\ st' = [st EXCEPT ![O.o].fd = IF ok THEN -1 ELSE @]
             /\ e' = (IF S.s = 0 THEN e ELSE [e EXCEPT ![S.s].mode = "idle"]) /\ UNCHANGED <<fds, env>>
        [] O.k = "read" -> /\ IF O.ph = 2 THEN IF O.r >= 0 THEN ok /\ v = O.r /\ bs = O.bs ELSE ~ok /\ v = -O.r
                              ELSE Excused(ok, v) \/ (~ok /\ O.fd = -1)
                           /\ UNCHANGED <<e, st, fds, env>>
        [] O.k = "write" -> /\ IF O.ph = 2 THEN IF O.r >= 0 THEN ok /\ v = O.r ELSE ~ok /\ v = -O.r ELSE Excused(ok, v) \/ (~ok /\ O.fd = -1)
                            /\ UNCHANGED <<e, st, fds, env>>
        [] O.k \in {"acc", "con"} ->
             IF ok THEN \E s \in On(v) : LET E == e[s] IN
                  /\ O.ph = 2 /\ O.fd = v /\ v \in DOMAIN fds /\ Owner(v) = {}
                  /\ E.mode = "hs" /\ E.ph = "done" /\ E.tx /\ E.rx /\ E.err = 0
                  /\ E.role = (IF O.k = "acc" THEN "accept" ELSE "connect") /\ (O.k = "con" => E.need = O.h)
                  /\ e' = [e EXCEPT ![s].mode = "idle"]
                  /\ st' = Put(st, O.o, IF O.k = "acc" THEN NewStream(s, v, TRUE, fds[v].ip, fds[v].port) ELSE NewStream(s, v, TRUE, "?", 0))
                  /\ UNCHANGED <<fds, env>>
             ELSE /\ \/ O.ph = 2 /\ O.r < 0 /\ v = -O.r
                     \/ O.ph = 2 /\ O.r >= 0 /\ Because(O.fd, v)
                     \/ v = -2 /\ env.refused
                     \/ O.k = "con" /\ O.ph = 0 /\ (O.h \notin Known \/ v \in env.er)
                     \/ Excused(ok, v)
                  /\ O.fd \notin DOMAIN fds /\ On(O.fd) \cap {s \in DOMAIN e : e[s].fd # -1} = {}
                  /\ env' = [env EXCEPT !.refused = FALSE]
                  /\ UNCHANGED <<e, st, fds>>
   /\ UNCHANGED <<reqs, why>>

\* ---- streams as objects
Seen(o, done, ktls, fd, ip, port) ==
   /\ o \in DOMAIN st
   /\ done = st[o].up /\ ktls = st[o].up /\ fd = st[o].fd
   /\ st[o].s # 0 /\ st[o].ip # "?" => ip = st[o].ip /\ port = st[o].port
   /\ st' = [st EXCEPT ![o].ip = ip, ![o].port = port]
   /\ UNCHANGED <<e, fds, ops, reqs, why, env>>
Move(o, p) == /\ p \notin DOMAIN st
              /\ st' = Put([st EXCEPT ![o] = NewStream(0, -1, FALSE, "", 0)], p, st[o])
              /\ UNCHANGED <<e, fds, ops, reqs, why, env>>
Del(o) == st' = [st EXCEPT ![o].going = TRUE] /\ UNCHANGED <<e, fds, ops, reqs, why, env>>
Deleted(o) == /\ st[o].fd = -1 /\ st[o].s \notin DOMAIN e /\ st' = Without(st, o) /\ UNCHANGED <<e, fds, ops, reqs, why, env>>
Stop == env' = [env EXCEPT !.stop = TRUE] /\ UNCHANGED <<e, st, fds, ops, reqs, why>>
\* ---- listening
Refuse(v) == env' = [env EXCEPT !.er = @ \cup {v}] /\ UNCHANGED <<e, st, fds, ops, reqs, why>>
Listen(ip, port, q) == env' = [env EXCEPT !.lis = [NoListener EXCEPT !.on = TRUE, !.ip = ip, !.port = port, !.q = q], !.er = {}] /\ UNCHANGED <<e, st, fds, ops, reqs, why>>
Bind(fd, ip, port, family, er) == /\ fd = env.lis.fd /\ ip = Address(env.lis.ip) /\ port = env.lis.port
                                  /\ env' = [env EXCEPT !.lis.bound = er = 0] /\ UNCHANGED <<e, st, fds, ops, reqs, why>>
Opens(fd, q, er) == /\ fd = env.lis.fd /\ env.lis.bound /\ q = env.lis.q
                   /\ env' = [env EXCEPT !.lis.open = er = 0] /\ UNCHANGED <<e, st, fds, ops, reqs, why>>
Listening(ok, v) == /\ IF ok THEN env.lis.open /\ env.lis.fd \in DOMAIN fds ELSE (env.lis.ip \notin Known \/ v \in env.er) /\ env.lis.fd \notin DOMAIN fds
                    /\ env' = [env EXCEPT !.lis.on = FALSE] /\ UNCHANGED <<e, st, fds, ops, reqs, why>>
Finished(left) == left = 0 /\ e = Empty /\ DOMAIN fds = {} /\ ops = Empty /\ UNCHANGED tlsvars
============================================================================
