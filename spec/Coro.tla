-------------------------------- MODULE Coro --------------------------------
(* Lazy tasks.  s: "new" -> "run" -> "done"; waits: the child a task waits for. *)
(* Negative callers are plain threads, caller 0 is nobody (detached tasks).      *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES task
(* task: id -> [s, by, waits, out, drop, got] *)
None == 99999
New == [s |-> "new", by |-> None, waits |-> None, out |-> <<>>, drop |-> FALSE, got |-> FALSE]
Create(id) == /\ id \notin DOMAIN task
              /\ task' = [x \in DOMAIN task \cup {id} |-> IF x = id THEN New ELSE task[x]]
Runnable(p) == p <= 0 \/ (p \in DOMAIN task /\ task[p].s = "run" /\ task[p].waits = None)
Upd(id, r) == [task EXCEPT ![id] = r]
Await(p, c) == /\ c \in DOMAIN task /\ ~task[c].drop /\ task[c].by = None /\ Runnable(p)
               /\ task' = [x \in DOMAIN task |-> IF x = c THEN [task[c] EXCEPT !.by = p]
                                                 ELSE IF x = p THEN [task[p] EXCEPT !.waits = c] ELSE task[x]]
Start(c) == /\ c \in DOMAIN task /\ task[c].s = "new" /\ task[c].by # None /\ ~task[c].drop
            /\ task' = Upd(c, [task[c] EXCEPT !.s = "run"])
End(c, out) == /\ c \in DOMAIN task /\ task[c].s = "run" /\ task[c].waits = None
               /\ task' = Upd(c, [task[c] EXCEPT !.s = "done", !.out = out])
Resume(p, c, out) == /\ c \in DOMAIN task /\ task[c].s = "done" /\ task[c].by = p /\ task[c].out = out /\ ~task[c].got
                     /\ p > 0 => p \in DOMAIN task /\ task[p].waits = c
                     /\ task' = [x \in DOMAIN task |-> IF x = c THEN [task[c] EXCEPT !.got = TRUE]
                                                       ELSE IF x = p THEN [task[p] EXCEPT !.waits = None] ELSE task[x]]
(* the frame goes away: never run, or finished; and only once *)
Drop(c) == /\ c \in DOMAIN task /\ ~task[c].drop
           /\ task[c].s = "done" \/ (task[c].s = "new" /\ task[c].by = None)
           /\ task' = Upd(c, [task[c] EXCEPT !.drop = TRUE])
DetachReturned(c) == c \in DOMAIN task /\ task[c].s # "new" /\ UNCHANGED task
AllGone == \A c \in DOMAIN task : task[c].drop /\ (task[c].by \notin {None, 0} => task[c].got)
---------------------------------------------------------------------------
CONSTANTS Ids, Callers
TwoCallers == {-1, 0}
MCInit == task = <<>>
MCNext == \/ \E i \in Ids : Create(i) \/ Start(i) \/ End(i, <<0, i>>) \/ End(i, <<1, i>>) \/ Drop(i)
          \/ \E p \in Ids \cup Callers, c \in Ids : p # c /\ Await(p, c)
          \/ \E p \in Ids \cup Callers, c \in Ids : \E o \in {<<0, c>>, <<1, c>>} : Resume(p, c, o)
MCSpec == MCInit /\ [][MCNext]_task
InvAwaiterAlive == \A c \in DOMAIN task : (task[c].by \in Ids /\ ~task[c].got) =>
                       (task[task[c].by].s = "run" /\ ~task[task[c].by].drop)
InvSingle == \A c, d \in DOMAIN task : (c # d /\ task[c].by = task[d].by /\ task[c].by \in Ids /\ ~task[c].got) => task[d].got
InvLazy == \A c \in DOMAIN task : task[c].s # "new" => task[c].by # None
===========================================================================
