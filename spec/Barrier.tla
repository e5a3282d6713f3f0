------------------------------ MODULE Barrier ------------------------------
(* Synchronization of the world and of overlapping groups, as the runtime    *)
(* does it: fence the members one stored to, send a request to every member, *)
(* wait for one request of every member, answer them, wait for all answers.  *)
(* Requests are not labelled with the group: a process counts one request of *)
(* each member for each of its synchronizations.                             *)
(*                                                                           *)
(* Stores travel on ordered channels to the server of the target (the target *)
(* itself, its progress thread or progress process), apart from requests and *)
(* answers.  A request is counted where it arrives at once; that it may      *)
(* arrive late is that Answer may be taken late.                             *)
(*                                                                           *)
(* A program is a sequence of groups; every process synchronizes in those it *)
(* belongs to, in this order.  All programs of Length groups are initial     *)
(* states.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NProc, Groups, Length, FenceWorks, WaitAll, CountOnce
Procs == 0..(NProc - 1)

VARIABLES prog,   \* the program
          at,     \* process -> index in prog of its current or next synchronization
          pc,     \* "run", "fence", "req", "wait"
          ch,     \* <<from, to>> -> stores and fences on their way
          req,    \* process -> requests not yet answered, per sender
          ans,    \* process -> members whose acknowledgement or answer it awaits
          dirty,  \* process -> targets stored to since the last fence
          applied, sent,   \* sets of <<from, to, synchronization that follows>>
          left    \* set of <<process, synchronization>>
vars == <<prog, at, pc, ch, req, ans, dirty, applied, sent, left>>

NextSync(pr, p, i) == LET S == {j \in (i + 1)..Len(pr) : p \in pr[j]}
                      IN IF S = {} THEN Len(pr) + 1 ELSE CHOOSE j \in S : \A k \in S : j <= k
Mates(p) == prog[at[p]] \ {p}
Done(p) == at[p] > Len(prog)

Init == /\ prog \in [1..Length -> Groups]
        /\ at = [p \in Procs |-> NextSync(prog, p, 0)]
        /\ pc = [p \in Procs |-> "run"]
        /\ ch = [x \in Procs \X Procs |-> <<>>]
        /\ req = [p \in Procs |-> [q \in Procs |-> 0]]
        /\ ans = [p \in Procs |-> {}]
        /\ dirty = [p \in Procs |-> {}]
        /\ applied = {} /\ sent = {} /\ left = {}

\* a store to another member, at most one before each synchronization
Put(p, q) == /\ pc[p] = "run" /\ ~Done(p) /\ q \in Mates(p)
             /\ \A s \in sent : s[1] # p \/ s[3] # at[p]
             /\ sent' = sent \cup {<<p, q, at[p]>>}
             /\ ch' = [ch EXCEPT ![<<p, q>>] = Append(@, at[p])]
             /\ dirty' = [dirty EXCEPT ![p] = @ \cup {q}]
             /\ UNCHANGED <<prog, at, pc, req, ans, applied, left>>
\* the server of q takes a store, or a fence (0), which it acknowledges
Serve(p, q) == /\ ch[<<p, q>>] # <<>>
               /\ LET m == Head(ch[<<p, q>>])
                  IN IF m = 0 THEN ans' = [ans EXCEPT ![p] = @ \ {q}] /\ UNCHANGED applied
                              ELSE applied' = applied \cup {<<p, q, m>>} /\ UNCHANGED ans
               /\ ch' = [ch EXCEPT ![<<p, q>>] = Tail(@)]
               /\ UNCHANGED <<prog, at, pc, req, dirty, sent, left>>
Enter(p) == /\ pc[p] = "run" /\ ~Done(p)
            /\ pc' = [pc EXCEPT ![p] = "fence"]
            /\ LET f == IF FenceWorks THEN dirty[p] ELSE {}
               IN /\ ch' = [x \in Procs \X Procs |-> IF x[1] = p /\ x[2] \in f THEN Append(ch[x], 0) ELSE ch[x]]
                  /\ ans' = [ans EXCEPT ![p] = f]
            /\ dirty' = [dirty EXCEPT ![p] = {}]
            /\ UNCHANGED <<prog, at, req, applied, sent, left>>
Request(p) == /\ pc[p] = "fence" /\ ans[p] = {}
              /\ req' = [q \in Procs |-> IF q \in Mates(p) THEN [req[q] EXCEPT ![p] = @ + 1] ELSE req[q]]
              /\ ans' = [ans EXCEPT ![p] = Mates(p)]
              /\ pc' = [pc EXCEPT ![p] = "req"]
              /\ UNCHANGED <<prog, at, ch, dirty, applied, sent, left>>
\* one request of every member is there: answer them
Answer(p) == LET m == Mates(p)
                 seen == {q \in m : req[p][q] > 0}
             IN /\ pc[p] = "req"
                /\ IF WaitAll THEN seen = m ELSE Cardinality(seen) >= Cardinality(m) - 1
                /\ req' = [req EXCEPT ![p] = [q \in Procs |-> IF q \in seen THEN @[q] - 1 ELSE IF CountOnce THEN @[q] ELSE 0]]
                /\ ans' = [q \in Procs |-> IF q \in seen THEN ans[q] \ {p} ELSE ans[q]]
                /\ pc' = [pc EXCEPT ![p] = "wait"]
                /\ UNCHANGED <<prog, at, ch, dirty, applied, sent, left>>
Leave(p) == /\ pc[p] = "wait"
            /\ WaitAll => ans[p] = {}
            /\ left' = left \cup {<<p, at[p]>>}
            /\ at' = [at EXCEPT ![p] = NextSync(prog, p, at[p])]
            /\ pc' = [pc EXCEPT ![p] = "run"]
            /\ ans' = [ans EXCEPT ![p] = {}]
            /\ UNCHANGED <<prog, ch, req, dirty, applied, sent>>

AllDone == \A p \in Procs : Done(p)
Next == \/ \E p \in Procs : Enter(p) \/ Request(p) \/ Answer(p) \/ Leave(p) \/ \E q \in Procs : Put(p, q) \/ Serve(p, q)
        \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Entered(p, i) == at[p] > i \/ (at[p] = i /\ pc[p] # "run")
\* nobody leaves before all members have entered
NoEarlyLeave == \A x \in left : \A q \in prog[x[2]] : Entered(q, x[2])
\* what members stored before is there when the first member leaves
Complete == \A x \in left : \A s \in sent : s[3] = x[2] => s \in applied
\* and no deadlock (TLC): all synchronizations end
=============================================================================
