----------------------------- MODULE AccAtomic -----------------------------
(* An accumulate is a read, an addition and a write.  Two paths lead to a    *)
(* cell: processes on the owner's node do it themselves, under the owner's   *)
(* semaphore; all others send a message to the owner's server, which takes   *)
(* the same semaphore.  Whatever the interleaving, the cell ends with the    *)
(* sum (C02).  ServerLocks = FALSE is a server that forgets the semaphore.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Local, Remote, Reps, ServerLocks
VARIABLES cell, sem, queue, st, tmp, done
vars == <<cell, sem, queue, st, tmp, done>>
Server == 99
Agents == Local \cup {Server}
Contribution(p) == p + 1
Init == /\ cell = 0 /\ sem = -1 /\ queue = <<>>
        /\ st = [a \in Agents |-> "idle"]
        /\ tmp = [a \in Agents |-> 0]
        /\ done = [p \in Local \cup Remote |-> 0]
Send(p) == /\ p \in Remote /\ done[p] < Reps
           /\ queue' = Append(queue, Contribution(p))
           /\ done' = [done EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<cell, sem, st, tmp>>
Wants(a) == IF a = Server THEN queue # <<>> ELSE done[a] < Reps
Lock(a) == /\ st[a] = "idle" /\ Wants(a)
           /\ (a = Server /\ ~ServerLocks) \/ sem = -1
           /\ sem' = IF a = Server /\ ~ServerLocks THEN sem ELSE a
           /\ st' = [st EXCEPT ![a] = "read"]
           /\ UNCHANGED <<cell, queue, tmp, done>>
Read(a) == /\ st[a] = "read" /\ tmp' = [tmp EXCEPT ![a] = cell]
           /\ st' = [st EXCEPT ![a] = "write"] /\ UNCHANGED <<cell, sem, queue, done>>
Write(a) == /\ st[a] = "write"
            /\ cell' = tmp[a] + (IF a = Server THEN Head(queue) ELSE Contribution(a))
            /\ IF a = Server THEN queue' = Tail(queue) /\ UNCHANGED done
                               ELSE done' = [done EXCEPT ![a] = @ + 1] /\ UNCHANGED queue
            /\ sem' = IF sem = a THEN -1 ELSE sem
            /\ st' = [st EXCEPT ![a] = "idle"] /\ UNCHANGED tmp
Next == (\E p \in Remote : Send(p)) \/ (\E a \in Agents : Lock(a) \/ Read(a) \/ Write(a))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Add(_)
Add(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN Reps * Contribution(p) + Add(S \ {p})
Quiet == queue = <<>> /\ (\A a \in Agents : st[a] = "idle") /\ \A p \in Local \cup Remote : done[p] = Reps
Exact == Quiet => cell = Add(Local \cup Remote)
Finishes == <>Quiet
=============================================================================
