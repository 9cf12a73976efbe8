--------------------------------- MODULE Net ---------------------------------
(* Addresses and listening sockets.                                            *)
(* An address is [fam, ip, port] with ip in its canonical spelling.             *)
(* names: what each host stands for, in order of preference; a host is numeric  *)
(*   (lit) or must be looked up; socks[fd]: an open socket; cur: the call in     *)
(*   progress with what happened during it.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES names, socks, cur
nvars == <<names, socks, cur>>
Idle == [n |-> ""]
Unbound == [fam |-> 0, ip |-> "", port |-> 0]
NInit(t) == names = t /\ socks = <<>> /\ cur = Idle
NPut(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
NDel(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
REUSEADDR == "reuseaddr"
REUSEPORT == "reuseport"
NODELAY == "nodelay"
KEEPALIVE == "keepalive"
(* what a host means; <<>> if it means nothing *)
Means(h) == names[h].as
AddrOf(h, port) == [fam |-> Means(h)[1].fam, ip |-> Means(h)[1].ip, port |-> port]
(* ---- calls on the library ---- *)
Ask(c) == cur = Idle /\ cur' = c @@ [asked |-> 0, held |-> 0, errs |-> {}, made |-> {}] /\ UNCHANGED <<names, socks>>
(* the name service is consulted for names only, and its answers are given back *)
Lookup(h, ok) == /\ cur.n \in {"resolve", "server"} /\ cur.h = h /\ ~names[h].lit /\ ok = (Means(h) # <<>>)
                 /\ cur' = [cur EXCEPT !.asked = @ + 1, !.held = IF ok THEN @ + 1 ELSE @]
                 /\ UNCHANGED <<names, socks>>
Giveback == cur # Idle /\ cur.held > 0 /\ cur' = [cur EXCEPT !.held = @ - 1] /\ UNCHANGED <<names, socks>>
(* ---- what the library does to sockets ---- *)
Sock(fd, fam, nb) == /\ cur # Idle /\ fd \notin DOMAIN socks
                     /\ socks' = NPut(socks, fd, [fam |-> fam, nb |-> nb, opts |-> {}, at |-> Unbound, backlog |-> -1])
                     /\ cur' = [cur EXCEPT !.made = @ \cup {fd}] /\ UNCHANGED names
NoSock(err) == cur # Idle /\ cur' = [cur EXCEPT !.errs = @ \cup {err}] /\ UNCHANGED <<names, socks>>
Refused(fd, err) == cur # Idle /\ fd \in DOMAIN socks /\ err # 0 /\ cur' = [cur EXCEPT !.errs = @ \cup {err}] /\ UNCHANGED <<names, socks>>
SetOpt(fd, o, on) == fd \in DOMAIN socks /\ socks' = [socks EXCEPT ![fd].opts = IF on THEN @ \cup {o} ELSE @ \ {o}] /\ UNCHANGED <<names, cur>>
Bind(fd, a) == fd \in DOMAIN socks /\ socks[fd].at = Unbound /\ socks' = [socks EXCEPT ![fd].at = a] /\ UNCHANGED <<names, cur>>
SetFl(fd, nb) == fd \in DOMAIN socks /\ socks' = [socks EXCEPT ![fd].nb = nb] /\ UNCHANGED <<names, cur>>
Listen(fd, n) == /\ fd \in DOMAIN socks /\ socks[fd].at # Unbound
                 /\ socks' = [socks EXCEPT ![fd].backlog = n] /\ UNCHANGED <<names, cur>>
(* the library closes only what it made in this call *)
Close(fd) == /\ fd \in DOMAIN socks /\ (cur # Idle => (fd \in cur.made \/ cur.n = "uclose"))
             /\ socks' = NDel(socks, fd) /\ cur' = (IF cur = Idle THEN cur ELSE [cur EXCEPT !.made = @ \ {fd}]) /\ UNCHANGED names
(* ---- answers ---- *)
Done == cur.held = 0 /\ cur' = Idle /\ UNCHANGED <<names, socks>>
Ready(fd, h, port, backlog) == /\ socks[fd].fam = Means(h)[1].fam /\ socks[fd].at = AddrOf(h, port) /\ socks[fd].backlog = backlog
                               /\ socks[fd].nb /\ {REUSEADDR, REUSEPORT} \subseteq socks[fd].opts
Answer(r) ==
  /\ cur # Idle
  /\ CASE cur.n = "resolve" -> /\ r.ok = (Means(cur.h) # <<>>)
                               /\ cur.asked = (IF names[cur.h].lit THEN 0 ELSE 1)
                               /\ (r.ok => (r.raw = AddrOf(cur.h, cur.port) /\ r.a = AddrOf(cur.h, cur.port)))
                               /\ cur.made = {}
       [] cur.n = "populate" -> /\ r.ok = (cur.known)
                                /\ r.ok => r.a = cur.a
       [] cur.n = "server" -> /\ r.ok => /\ Means(cur.h) # <<>> /\ cur.made = {r.fd} /\ cur.errs = {}
                                         /\ Ready(r.fd, cur.h, cur.port, cur.backlog)
                              /\ ~r.ok => /\ cur.made = {} /\ (Means(cur.h) = <<>> \/ cur.errs # {})
                                          /\ cur.errs # {} => r.code \in cur.errs
       [] cur.n \in {"tcpfd", "raw"} -> /\ r.ok => /\ cur.made = {r.fd} /\ socks[r.fd].fam = cur.fam
                                                  /\ (cur.n = "tcpfd" => socks[r.fd].nb)
                                       /\ (~r.ok => (cur.made = {} /\ r.code \in cur.errs))
       [] cur.n = "tcpopts" -> cur.errs = {} => (r.ok /\ {NODELAY, KEEPALIVE} \subseteq socks[cur.fd].opts)
       [] cur.n = "srvopts" -> /\ r.ok = (cur.errs = {})
                               /\ r.ok => {REUSEADDR, REUSEPORT} \subseteq socks[cur.fd].opts
                               /\ ~r.ok => r.code \in cur.errs
       [] cur.n = "listen" -> /\ r.ok = (cur.errs = {})
                              /\ (r.ok => (socks[cur.fd].at = AddrOf(cur.h, cur.port) /\ socks[cur.fd].backlog = cur.backlog /\ socks[cur.fd].nb))
                              /\ ~r.ok => r.code \in cur.errs
       [] cur.n = "uclose" -> TRUE
  /\ Done
Over == cur = Idle /\ socks = <<>> /\ UNCHANGED nvars
=============================================================================
