------------------------------ MODULE RmwTrace ------------------------------
(* Checks recorded concurrent read-modify-write calls for linearizability.   *)
(* A line "rmw" holds the calls of one process in a phase: the cells c, the   *)
(* operation k (0 add, 1 swap), the operand i, the value v returned, and the  *)
(* times s and e of a clock all processes share, taken before and after the   *)
(* call.  At the line "order" TLC looks for one order of all the calls that   *)
(* agrees with real time and explains every returned value; the line "final"  *)
(* gives the contents read afterwards.  Cells are independent words, so each  *)
(* is ordered by itself (linearizability is local).                           *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC, FiniteSets
VARIABLES val,   \* cell -> contents
          q,     \* cell -> (rank -> calls not yet ordered), without the empty ones
          l, nx, bad
vars == <<val, q, l, nx, bad>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Total == FoldLeft(LAMBDA x, e : x + (IF e.op = "rmw" THEN Len(e.v) ELSE 0), Len(Trace), Trace)

Init == val = <<>> /\ q = <<>> /\ l = 1 /\ nx = 0 /\ bad = <<>>

Case(e) == /\ e.op = "case" /\ val' = <<>> /\ q' = <<>> /\ nx' = e.nx /\ l' = l + 1 /\ UNCHANGED bad
\* the initial contents of the cells 0..n-1
Start(e) == /\ e.op = "cells" /\ val' = [j \in 1..Len(e.x) |-> e.x[j]]
            /\ q' = <<>> /\ l' = l + 1 /\ UNCHANGED <<nx, bad>>
Calls(e, c) == LET ix == SelectSeq([j \in 1..Len(e.v) |-> j], LAMBDA j : e.c[j] + 1 = c)
               IN [j \in 1..Len(ix) |-> [k |-> e.k[ix[j]], i |-> e.i[ix[j]], v |-> e.v[ix[j]], s |-> e.s[ix[j]], e |-> e.e[ix[j]]]]
Queue(e) == /\ e.op = "rmw"
            /\ q' = [c \in DOMAIN q \cup {e.c[j] + 1 : j \in 1..Len(e.c)} |->
                       LET new == Calls(e, c)
                       IN IF new = <<>> THEN q[c] ELSE (IF c \in DOMAIN q THEN q[c] ELSE <<>>) @@ (e.r :> new)]
            /\ l' = l + 1 /\ UNCHANGED <<val, nx, bad>>
New(x, v) == IF x.k = 0 THEN v + x.i ELSE x.i
\* the cells are ordered one after the other; the queues of the current one hold the calls not yet ordered
Cur == CHOOSE c \in DOMAIN q : \A d \in DOMAIN q : c <= d
Pick == LET c == Cur
            now == val[c]
            w == q[c]
            \* a rank whose next call saw the current contents, and none of the others returned before it began
            can == {r \in DOMAIN w : w[r][1].v = now /\ \A o \in DOMAIN w : o # r => w[o][1].e > w[r][1].s}
            \* a call that changes nothing may as well come first
            idle == {r \in can : New(w[r][1], now) = now}
        IN /\ \E r \in IF idle # {} THEN {CHOOSE r \in idle : TRUE} ELSE can :
                LET rest == IF Len(w[r]) > 1 THEN [w EXCEPT ![r] = Tail(@)] ELSE [o \in DOMAIN w \ {r} |-> w[o]]
                IN /\ val' = [val EXCEPT ![c] = New(w[r][1], @)]
                   /\ q' = IF rest = <<>> THEN [d \in DOMAIN q \ {c} |-> q[d]] ELSE [q EXCEPT ![c] = rest]
           /\ UNCHANGED <<l, nx, bad>>
Order(e) == /\ e.op = "order"
            /\ IF DOMAIN q # {} THEN Pick ELSE l' = l + 1 /\ UNCHANGED <<val, q, nx, bad>>
Final(e) == /\ e.op = "final" /\ e.v = val /\ l' = l + 1 /\ UNCHANGED <<val, q, nx, bad>>
Step(e) == Case(e) \/ Start(e) \/ Queue(e) \/ Order(e) \/ Final(e)
Expected(e) == IF e.op = "order" THEN <<"no order explains the calls on cell", Cur - 1, "contents", val[Cur],
                                        "next calls", [r \in DOMAIN q[Cur] |-> Head(q[Cur][r])]>>
               ELSE IF e.op = "final" THEN val ELSE <<>>
Reject(e) == /\ e.op # "case" /\ ~ ENABLED Step(e)
             /\ PrintT(<<"MISMATCH", e.id, e.r, e.op, Expected(e)>>)
             /\ bad' = Append(bad, l) /\ l' = nx /\ UNCHANGED <<val, q, nx>>
Follow == l <= Len(Trace) /\ Step(Trace[l])
Explain == l <= Len(Trace) /\ (Step(Trace[l]) \/ Reject(Trace[l]))
Spec == Init /\ [][Follow]_vars
ExplainSpec == Init /\ [][Explain]_vars
Accepted == Assert(TLCGet("stats").diameter - 1 = Total, <<"REJECTED", TLCGet("stats").diameter>>)
=============================================================================
