-------------------------------- MODULE NetMC --------------------------------
(* The steps in which a listening socket is made, any of which may fail;        *)
(* every answer they lead to must be one Net.tla allows.                        *)
EXTENDS Net
CONSTANT Mutant
VARIABLES pc, ans
mcvars == <<nvars, pc, ans>>
Hosts == [lit |-> [lit |-> TRUE, as |-> <<[fam |-> 2, ip |-> "a"]>>], name |-> [lit |-> FALSE, as |-> <<[fam |-> 10, ip |-> "b"], [fam |-> 2, ip |-> "c"]>>],
          bad |-> [lit |-> FALSE, as |-> <<>>]]
Errs == {1, 2}
No == [ok |-> FALSE, fd |-> -1, code |-> 0]
MCInit == NInit(Hosts) /\ pc = "idle" /\ ans = No
Keep == ans' = ans
Fails(next) == \E e \in Errs : Refused(1, e) /\ pc' = "fail" /\ ans' = [No EXCEPT !.code = e]
Start == pc = "idle" /\ \E h \in DOMAIN Hosts : Ask([n |-> "server", h |-> h, port |-> 80, backlog |-> 5]) /\ pc' = "resolve" /\ Keep
Resolve == /\ pc = "resolve"
           /\ \/ names[cur.h].lit /\ pc' = "socket" /\ UNCHANGED <<nvars, ans>>
              \/ ~names[cur.h].lit /\ Lookup(cur.h, Means(cur.h) # <<>>) /\ pc' = (IF Means(cur.h) = <<>> THEN "return" ELSE "free") /\ ans' = [No EXCEPT !.code = 99]
Free == pc = "free" /\ pc' = "socket" /\ Keep /\ (IF Mutant = "leak" THEN UNCHANGED nvars ELSE Giveback)
Socket == pc = "socket" /\ \/ Sock(1, Means(cur.h)[1].fam, FALSE) /\ pc' = "addr" /\ Keep
                           \/ \E e \in Errs : NoSock(e) /\ pc' = "return" /\ ans' = [No EXCEPT !.code = e]
Addr == pc = "addr" /\ (Fails("port") \/ (SetOpt(1, REUSEADDR, TRUE) /\ pc' = "port" /\ Keep))
Port == pc = "port" /\ (Fails("bind") \/ (SetOpt(1, REUSEPORT, TRUE) /\ pc' = "bind" /\ Keep))
Bnd == pc = "bind" /\ (Fails("fl") \/ (Bind(1, AddrOf(cur.h, cur.port)) /\ pc' = (IF Mutant = "blocking" THEN "listen" ELSE "fl") /\ Keep))
Fl == pc = "fl" /\ (Fails("listen") \/ (SetFl(1, TRUE) /\ pc' = "listen" /\ Keep))
Lst == pc = "listen" /\ (Fails("") \/ (Listen(1, cur.backlog) /\ pc' = "return" /\ ans' = [ok |-> TRUE, fd |-> 1, code |-> 0]))
Undo == pc = "fail" /\ pc' = "return" /\ Keep /\ (IF Mutant = "open" THEN UNCHANGED nvars ELSE Close(1))
Return == pc = "return" /\ Answer(ans) /\ pc' = "over" /\ Keep
MCNext == Start \/ Resolve \/ Free \/ Socket \/ Addr \/ Port \/ Bnd \/ Fl \/ Lst \/ Undo \/ Return
MCSpec == MCInit /\ [][MCNext]_mcvars
(* whatever happens, the answer reached is an allowed one *)
Allowed == pc = "return" => ENABLED Answer(ans)
=============================================================================
