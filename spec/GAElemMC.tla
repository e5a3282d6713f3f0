------------------------------ MODULE GAElemMC ------------------------------
(* How an operation c := f(a, b) on patches is carried out: operands whose   *)
(* part on some process differs from that of the result are first copied     *)
(* into arrays distributed as the result is (or into the result itself,      *)
(* where it is not an operand still needed); then every process combines    *)
(* what it holds.  The result has to be the element-wise definition, and no  *)
(* other element may change - whatever the distributions, the patches and    *)
(* the identities of the arrays are.                                         *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS N,        \* length of the arrays
          P,        \* processes
          Broken    \* "none", "NoDup", "Sync"
ASSUME Broken \in {"none", "NoDup", "Sync"}
Arrays == 1..3
Procs == 0..P - 1
VARIABLES data,     \* array or temporary (4: copy of a, 5: copy of b) -> contents
          start,    \* contents at the beginning
          cut,      \* array -> process -> first element it owns (and 1 past the last for P)
          op,       \* a, b, c: arrays; la, lb, lc: first elements; n: elements
          plan,     \* where the operands are taken from: array number and offset
          pc, todo  \* process -> step, elements still to do in this step
vars == <<data, start, cut, op, plan, pc, todo>>

Cuts == {c \in [0..P -> 1..N + 1] : c[0] = 1 /\ c[P] = N + 1 /\ \A p \in Procs : c[p] <= c[p + 1]}
Own(x, p) == cut[x][p]..(cut[x][p + 1] - 1)
Initial == [x \in 1..5 |-> [i \in 1..N |-> IF x > 3 THEN -1 ELSE 10 * x + i]]
F(x, y) == 100 * x + y
Apart(x, l, y, k, n) == x # y \/ l = k \/ l + n <= k \/ k + n <= l
Ops == {o \in [a : Arrays, b : Arrays, c : Arrays, la : 1..N, lb : 1..N, lc : 1..N, n : 1..N] :
          /\ o.la + o.n - 1 <= N /\ o.lb + o.n - 1 <= N /\ o.lc + o.n - 1 <= N
          /\ Apart(o.a, o.la, o.c, o.lc, o.n) /\ Apart(o.b, o.lb, o.c, o.lc, o.n)}
\* an operand is used in place when every process holds its elements where it holds those of the result
InPlace(x, l) == x \in Arrays /\ cut[x] = cut[op.c] /\ l = op.lc
PlanA == IF InPlace(op.a, op.la) THEN op.a
         ELSE IF op.b # op.c \/ Broken = "NoDup" THEN op.c ELSE 4
PlanB == IF InPlace(op.b, op.lb) THEN op.b ELSE 5

Init == /\ data = Initial /\ start = Initial
        /\ op \in Ops
        /\ \E c \in [{op.a, op.b, op.c} -> Cuts] : cut = [x \in Arrays |-> IF x \in DOMAIN c THEN c[x] ELSE c[op.c]]
        /\ plan = [a |-> 0, b |-> 0]
        /\ pc = [p \in Procs |-> "start"] /\ todo = [p \in Procs |-> {}]
\* elements (numbers 0..n-1 of the patch) that process p does: copies by the owner of the source
Mine(x, l, p) == {j \in 0..op.n - 1 : l + j \in Own(x, p)}
Start(p) == /\ pc[p] = "start"
            /\ plan' = [a |-> PlanA, b |-> PlanB]
            /\ pc' = [pc EXCEPT ![p] = "copyA"]
            /\ todo' = [todo EXCEPT ![p] = IF PlanA = op.a /\ InPlace(op.a, op.la) THEN {} ELSE Mine(op.a, op.la, p)]
            /\ UNCHANGED <<data, start, cut, op>>
CopyA(p) == /\ pc[p] = "copyA"
            /\ \E j \in todo[p] :
                 /\ data' = [data EXCEPT ![plan.a][op.lc + j] = data[op.a][op.la + j]]
                 /\ todo' = [todo EXCEPT ![p] = @ \ {j}]
            /\ UNCHANGED <<start, cut, op, plan, pc>>
CopyB(p) == /\ pc[p] = "copyB"
            /\ \E j \in todo[p] :
                 /\ data' = [data EXCEPT ![plan.b][op.lc + j] = data[op.b][op.lb + j]]
                 /\ todo' = [todo EXCEPT ![p] = @ \ {j}]
            /\ UNCHANGED <<start, cut, op, plan, pc>>
\* no offset when the operand is used in place: l = lc
Combine(p) == /\ pc[p] = "combine"
              /\ \E j \in todo[p] :
                   /\ data' = [data EXCEPT ![op.c][op.lc + j] = F(data[plan.a][op.lc + j], data[plan.b][op.lc + j])]
                   /\ todo' = [todo EXCEPT ![p] = @ \ {j}]
              /\ UNCHANGED <<start, cut, op, plan, pc>>
Next1 == [copyA |-> "waitA", copyB |-> "waitB", combine |-> "done"]
Finish(p) == /\ pc[p] \in DOMAIN Next1 /\ todo[p] = {}
             /\ pc' = [pc EXCEPT ![p] = Next1[@]]
             /\ UNCHANGED <<data, start, cut, op, plan, todo>>
\* barriers (all processes have arrived or are further on)
After == [waitA |-> {"waitA", "copyB", "waitB", "combine", "done"}, waitB |-> {"waitB", "combine", "done"}]
Go(p) == /\ pc[p] \in DOMAIN After
         /\ Broken = "Sync" \/ \A q \in Procs : pc[q] \in After[pc[p]]
         /\ IF pc[p] = "waitA"
            THEN /\ pc' = [pc EXCEPT ![p] = "copyB"]
                 /\ todo' = [todo EXCEPT ![p] = IF plan.b = 5 THEN Mine(op.b, op.lb, p) ELSE {}]
            ELSE /\ pc' = [pc EXCEPT ![p] = "combine"]
                 /\ todo' = [todo EXCEPT ![p] = Mine(op.c, op.lc, p)]
         /\ UNCHANGED <<data, start, cut, op, plan>>
Next == \E p \in Procs : Start(p) \/ CopyA(p) \/ CopyB(p) \/ Combine(p) \/ Finish(p) \/ Go(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Expected == [start EXCEPT ![op.c] = [i \in 1..N |-> IF i - op.lc \in 0..op.n - 1
               THEN F(start[op.a][op.la + i - op.lc], start[op.b][op.lb + i - op.lc]) ELSE start[op.c][i]]]
AllDone == \A p \in Procs : pc[p] = "done"
Result == AllDone => \A x \in Arrays : data[x] = Expected[x]
Outside == \A x \in Arrays : \A i \in 1..N : (x # op.c \/ i - op.lc \notin 0..op.n - 1) => data[x][i] = start[x][i]
Ends == <>AllDone
=============================================================================
