-------------------------------- MODULE Rmw --------------------------------
(* The read-modify-write protocol of the communication runtime: a process    *)
(* asks the owner's server by message (every port does so for a remote word; *)
(* MPI two-sided ports also for their own), or works on the word directly     *)
(* under the owner's lock (processes of one host).  A word is read and        *)
(* written in two steps, so the lock or the server's turn is what makes it    *)
(* one operation.                                                             *)
(*                                                                            *)
(* Linearizability is stated on the calls: tickets are distinct, and a call   *)
(* that began after another one had returned gets a later ticket (start[p] is *)
(* the latest ticket returned to anybody when p's call began).                *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Direct,    \* processes that work on the word directly
          Remote,    \* processes that send messages
          K,         \* calls of each process
          Locked,    \* the direct accesses take the lock
          ServerLocks \* the server takes the lock too
Procs == Direct \cup Remote
VARIABLES word, chan, srv, lock, pc, tmp, start, left, ret, last, ok
vars == <<word, chan, srv, lock, pc, tmp, start, left, ret, last, ok>>
None == "none"

Init == /\ word = 0 /\ chan = {} /\ srv = [who |-> None, val |-> 0] /\ lock = None
        /\ pc = [p \in Procs |-> "idle"] /\ tmp = [p \in Procs |-> 0]
        /\ start = [p \in Procs |-> 0] /\ left = [p \in Procs |-> K]
        /\ ret = {} /\ last = -1 /\ ok = TRUE

Begin(p) == /\ pc[p] = "idle" /\ left[p] > 0
            /\ start' = [start EXCEPT ![p] = last]
            /\ IF p \in Remote THEN /\ chan' = chan \cup {p}
                                    /\ pc' = [pc EXCEPT ![p] = "wait"]
                               ELSE /\ pc' = [pc EXCEPT ![p] = IF Locked THEN "lock" ELSE "read"]
                                    /\ UNCHANGED chan
            /\ UNCHANGED <<word, srv, lock, tmp, left, ret, last, ok>>
Lock(p) == /\ pc[p] = "lock" /\ lock = None
           /\ lock' = p /\ pc' = [pc EXCEPT ![p] = "read"]
           /\ UNCHANGED <<word, chan, srv, tmp, start, left, ret, last, ok>>
ReadW(p) == /\ pc[p] = "read" /\ tmp' = [tmp EXCEPT ![p] = word] /\ pc' = [pc EXCEPT ![p] = "write"]
            /\ UNCHANGED <<word, chan, srv, lock, start, left, ret, last, ok>>
Write(p) == /\ pc[p] = "write" /\ word' = tmp[p] + 1 /\ pc' = [pc EXCEPT ![p] = "ret"]
            /\ lock' = IF Locked THEN None ELSE lock
            /\ UNCHANGED <<chan, srv, tmp, start, left, ret, last, ok>>
Return(p) == /\ pc[p] = "ret"
             /\ ok' = (ok /\ tmp[p] > start[p] /\ tmp[p] \notin ret /\ tmp[p] < word)
             /\ ret' = ret \cup {tmp[p]}
             /\ last' = IF tmp[p] > last THEN tmp[p] ELSE last
             /\ left' = [left EXCEPT ![p] = @ - 1]
             /\ pc' = [pc EXCEPT ![p] = "idle"]
             /\ UNCHANGED <<word, chan, srv, lock, tmp, start>>
SrvTake == \E p \in chan :
             /\ srv.who = None /\ (ServerLocks => lock = None)
             /\ srv' = [who |-> p, val |-> word] /\ chan' = chan \ {p}
             /\ lock' = IF ServerLocks THEN "server" ELSE lock
             /\ UNCHANGED <<word, pc, tmp, start, left, ret, last, ok>>
SrvDone == /\ srv.who # None
           /\ word' = srv.val + 1
           /\ tmp' = [tmp EXCEPT ![srv.who] = srv.val]
           /\ pc' = [pc EXCEPT ![srv.who] = "ret"]
           /\ srv' = [srv EXCEPT !.who = None]
           /\ lock' = IF ServerLocks THEN None ELSE lock
           /\ UNCHANGED <<chan, start, left, ret, last, ok>>
Next == SrvTake \/ SrvDone \/ \E p \in Procs : Begin(p) \/ Lock(p) \/ ReadW(p) \/ Write(p) \/ Return(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* tickets are distinct, inside the range handed out, and agree with real time
Linearizable == ok
Final == (\A p \in Procs : left[p] = 0 /\ pc[p] = "idle") => word = K * Cardinality(Procs)
Served == <>(\A p \in Procs : left[p] = 0)
=============================================================================
