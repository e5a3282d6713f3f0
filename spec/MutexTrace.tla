----------------------------- MODULE MutexTrace -----------------------------
(* Checks recorded critical sections.  A line "crit" lists the sections of   *)
(* one process: the mutex m, the time s after it was taken, the time e before *)
(* it was released, and the number v found in the word the mutex protects     *)
(* (each section stores v + 1 there and fences).  At "order" the sections of  *)
(* each mutex are put into the order of their times: each must begin after    *)
(* the one before it ended and find the number that one left.                 *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLES val,  \* mutex -> number its word holds
          last, \* mutex -> end of the latest section
          q,    \* sections not yet ordered
          l, nx, bad
vars == <<val, last, q, l, nx, bad>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Total == FoldLeft(LAMBDA x, e : x + (IF e.op = "crit" THEN Len(e.v) ELSE 0), Len(Trace), Trace)
Init == val = <<>> /\ last = <<>> /\ q = {} /\ l = 1 /\ nx = 0 /\ bad = <<>>
Case(e) == /\ e.op = "case" /\ val' = <<>> /\ last' = <<>> /\ q' = {} /\ nx' = e.nx /\ l' = l + 1 /\ UNCHANGED bad
Start(e) == /\ e.op = "mutexes" /\ val' = [j \in 1..e.n |-> 0] /\ last' = [j \in 1..e.n |-> 0] /\ q' = {}
            /\ l' = l + 1 /\ UNCHANGED <<nx, bad>>
Queue(e) == /\ e.op = "crit"
            /\ q' = q \cup {[r |-> e.r, m |-> e.m[j] + 1, s |-> e.s[j], e |-> e.e[j], v |-> e.v[j]] : j \in 1..Len(e.v)}
            /\ l' = l + 1 /\ UNCHANGED <<val, last, nx, bad>>
First == CHOOSE x \in q : \A y \in q : x.s <= y.s
Order(e) == /\ e.op = "order"
            /\ IF q = {} THEN l' = l + 1 /\ UNCHANGED <<val, last, q, nx, bad>>
               ELSE LET x == First
                    IN /\ x.s > last[x.m] /\ x.v = val[x.m]
                       /\ val' = [val EXCEPT ![x.m] = @ + 1]
                       /\ last' = [last EXCEPT ![x.m] = x.e]
                       /\ q' = q \ {x}
                       /\ UNCHANGED <<l, nx, bad>>
Final(e) == /\ e.op = "final" /\ e.v = val /\ l' = l + 1 /\ UNCHANGED <<val, last, q, nx, bad>>
Step(e) == Case(e) \/ Start(e) \/ Queue(e) \/ Order(e) \/ Final(e)
Expected(e) == IF e.op = "order" THEN <<"section", First, "follows one that ended at", last[First.m], "and left", val[First.m]>>
               ELSE IF e.op = "final" THEN val ELSE <<>>
Reject(e) == /\ e.op # "case" /\ ~ ENABLED Step(e)
             /\ PrintT(<<"MISMATCH", e.id, e.r, e.op, Expected(e)>>)
             /\ bad' = Append(bad, l) /\ l' = nx /\ UNCHANGED <<val, last, q, nx>>
Follow == l <= Len(Trace) /\ Step(Trace[l])
Explain == l <= Len(Trace) /\ (Step(Trace[l]) \/ Reject(Trace[l]))
Spec == Init /\ [][Follow]_vars
ExplainSpec == Init /\ [][Explain]_vars
Accepted == Assert(TLCGet("stats").diameter - 1 = Total, <<"REJECTED", TLCGet("stats").diameter>>)
=============================================================================
