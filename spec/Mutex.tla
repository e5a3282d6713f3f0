------------------------------- MODULE Mutex -------------------------------
(* Mutexes of the communication runtime: every mutex lives on a process,     *)
(* whose server keeps a queue of waiting processes per mutex; lock and       *)
(* unlock are messages, the grant is the answer.  A process does its work    *)
(* while it holds the mutex: it fetches a word, stores the next number and   *)
(* fences before it unlocks; stores travel on the same channel as unlock     *)
(* (Fenced = FALSE: on one of their own, and nobody waits for them).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, M, K, Fenced, Alias, Fifo
VARIABLES granted, \* processes whose lock request was answered
          queue,   \* mutex -> sequence of waiting processes, the first one holds it
          chan,    \* messages to the servers: sequence per process
          mem, store, pc, want, left, seen, holds
vars == <<granted, queue, chan, mem, store, pc, want, left, seen, holds>>
\* the mutex a number stands for; Alias: the broken mapping that ignores the number
Map(m) == IF Alias THEN CHOOSE x \in M : TRUE ELSE m
Init == /\ granted = {} /\ queue = [m \in M |-> <<>>] /\ chan = [p \in P |-> <<>>] /\ mem = [m \in M |-> 0]
        /\ store = [p \in P |-> <<>>] /\ pc = [p \in P |-> "idle"] /\ want = [p \in P |-> CHOOSE m \in M : TRUE]
        /\ left = [p \in P |-> K] /\ seen = [m \in M |-> {}] /\ holds = [p \in P |-> {}]
Ask(p) == /\ pc[p] = "idle" /\ left[p] > 0
          /\ \E m \in M : /\ want' = [want EXCEPT ![p] = m]
                          /\ chan' = [chan EXCEPT ![p] = Append(@, <<"lock", m>>)]
          /\ pc' = [pc EXCEPT ![p] = "wait"]
          /\ UNCHANGED <<granted, queue, mem, store, left, seen, holds>>
\* the first in the queue holds the mutex; Fifo = FALSE: every request is granted at once
Serve(p) == /\ chan[p] # <<>>
            /\ LET x == Head(chan[p])
                   m == Map(x[2])
                   new == IF x[1] = "lock" THEN Append(queue[m], p) ELSE Tail(queue[m])
               IN /\ queue' = [queue EXCEPT ![m] = new]
                  /\ granted' = IF x[1] = "lock" THEN (IF Len(new) = 1 \/ ~Fifo THEN granted \cup {p} ELSE granted)
                                ELSE (IF new # <<>> THEN granted \cup {Head(new)} ELSE granted)
            /\ chan' = [chan EXCEPT ![p] = Tail(@)]
            /\ UNCHANGED <<mem, store, pc, want, left, seen, holds>>
Enter(p) == /\ pc[p] = "wait" /\ p \in granted
            /\ granted' = granted \ {p}
            /\ pc' = [pc EXCEPT ![p] = "in"]
            /\ holds' = [holds EXCEPT ![p] = @ \cup {want[p]}]
            /\ UNCHANGED <<queue, chan, mem, store, want, left, seen>>
Work(p) == /\ pc[p] = "in"
           /\ seen' = [seen EXCEPT ![want[p]] = @ \cup {<<p, left[p], mem[want[p]]>>}]
           /\ store' = [store EXCEPT ![p] = Append(@, <<want[p], mem[want[p]] + 1>>)]
           /\ pc' = [pc EXCEPT ![p] = "fence"]
           /\ UNCHANGED <<granted, queue, chan, mem, want, left, holds>>
Land(p) == /\ store[p] # <<>>
           /\ mem' = [mem EXCEPT ![Head(store[p])[1]] = Head(store[p])[2]]
           /\ store' = [store EXCEPT ![p] = Tail(@)]
           /\ UNCHANGED <<granted, queue, chan, pc, want, left, seen, holds>>
Leave(p) == /\ pc[p] = "fence" /\ (Fenced => store[p] = <<>>)
            /\ holds' = [holds EXCEPT ![p] = @ \ {want[p]}]
            /\ chan' = [chan EXCEPT ![p] = Append(@, <<"unlock", want[p]>>)]
            /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ pc' = [pc EXCEPT ![p] = "idle"]
            /\ UNCHANGED <<granted, queue, mem, store, want, seen>>
Next == \E p \in P : Ask(p) \/ Serve(p) \/ Enter(p) \/ Work(p) \/ Land(p) \/ Leave(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ \A p \in P : WF_vars(Serve(p)) /\ WF_vars(Enter(p)) /\ WF_vars(Work(p)) /\ WF_vars(Land(p)) /\ WF_vars(Leave(p))
Exclusion == \A m \in M : Cardinality({p \in P : m \in holds[p]}) <= 1
\* every holder saw what the holder before it stored
Serial == \A m \in M : \A x, y \in seen[m] : x # y => x[3] # y[3]
Served == \A p \in P : pc[p] = "wait" ~> pc[p] = "in"
\* a process that waits for a mutex nobody holds or wants to release is about to get it
Independent == \A p \in P : pc[p] = "wait" /\ chan[p] = <<>> /\ (\A o \in P \ {p} : want[p] # want[o] /\ chan[o] = <<>>) => p \in granted
=============================================================================
