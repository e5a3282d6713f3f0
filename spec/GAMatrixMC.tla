----------------------------- MODULE GAMatrixMC -----------------------------
(* How C := alpha*A*B + beta*C is carried out by several processes.  The     *)
(* inner dimension is cut into chunks; a task is (cell of C, chunk).  Either *)
(* tasks are dealt out in turn (deal), every task accumulating its share     *)
(* into C after all processes have scaled their part of C; or the process    *)
(* that owns a cell does all of its tasks (own), where with beta = 0 the     *)
(* first may put instead of accumulating.  An accumulate is atomic.          *)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt
CONSTANTS Cells, Chunks, P, Broken
ASSUME Broken \in {"none", "Put", "Scale"}
Procs == 0..P - 1
VARIABLES c, c0, beta, mode, cut, owner, pc, todo
vars == <<c, c0, beta, mode, cut, owner, pc, todo>>
\* every share is different and no sum of some equals the sum of others
Share(x, k) == 10 ^ k * x
C0(x) == 7 * x
Index(x, k) == (x - 1) * Chunks + (k - 1)
Init == /\ beta \in {0, 1, 2} /\ mode \in {"deal", "own"}
        /\ owner \in [1..Cells -> Procs]
        /\ cut \in [1..Cells -> Procs]         \* who scales the cell (the owner, in the code, of another patch)
        /\ c = [x \in 1..Cells |-> C0(x)] /\ c0 = c
        /\ pc = [p \in Procs |-> "scale"]
        /\ todo = [p \in Procs |-> {x \in 1..Cells : cut[x] = p}]
MyTasks(p) == IF mode = "deal" THEN {t \in (1..Cells) \X (1..Chunks) : Index(t[1], t[2]) % P = p}
              ELSE {t \in (1..Cells) \X (1..Chunks) : owner[t[1]] = p}
\* own mode with beta = 0 does not touch C before the first put
Puts == beta = 0 /\ (mode = "own" \/ Broken = "Put")
ScaleOne(p) == /\ pc[p] = "scale"
               /\ \E x \in todo[p] : /\ c' = [c EXCEPT ![x] = IF Puts THEN @ ELSE beta * @]
                                     /\ todo' = [todo EXCEPT ![p] = @ \ {x}]
               /\ UNCHANGED <<c0, beta, mode, cut, owner, pc>>
Scaled(p) == /\ pc[p] = "scale" /\ todo[p] = {}
             /\ pc' = [pc EXCEPT ![p] = "wait"]
             /\ UNCHANGED <<c, c0, beta, mode, cut, owner, todo>>
Begin(p) == /\ pc[p] = "wait"
            /\ Broken = "Scale" \/ \A q \in Procs : pc[q] # "scale"
            /\ pc' = [pc EXCEPT ![p] = "work"]
            /\ todo' = [todo EXCEPT ![p] = MyTasks(p)]
            /\ UNCHANGED <<c, c0, beta, mode, cut, owner>>
\* tasks of a cell are done in order of the chunks
Work(p) == /\ pc[p] = "work"
           /\ \E t \in todo[p] :
                /\ \A u \in todo[p] : u[1] = t[1] => t[2] <= u[2]
                /\ c' = [c EXCEPT ![t[1]] = IF Puts /\ t[2] = 1 THEN Share(t[1], t[2]) ELSE @ + Share(t[1], t[2])]
                /\ todo' = [todo EXCEPT ![p] = @ \ {t}]
           /\ UNCHANGED <<c0, beta, mode, cut, owner, pc>>
Done(p) == /\ pc[p] = "work" /\ todo[p] = {}
           /\ pc' = [pc EXCEPT ![p] = "done"]
           /\ UNCHANGED <<c, c0, beta, mode, cut, owner, todo>>
Next == \E p \in Procs : ScaleOne(p) \/ Scaled(p) \/ Begin(p) \/ Work(p) \/ Done(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllDone == \A p \in Procs : pc[p] = "done"
Result == AllDone => \A x \in 1..Cells : c[x] = beta * c0[x] + MapThenSumSet(LAMBDA k : Share(x, k), 1..Chunks)
Ends == <>AllDone
=============================================================================
