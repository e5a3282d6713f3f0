------------------------------ MODULE GAScanMC ------------------------------
(* How scans and packing are computed: every process scans its block, and     *)
(* processes whose block does not begin with a mark add what the blocks since *)
(* the last mark before theirs ended with.  All masks, blocks and ranges of a *)
(* length are explored, all interleavings of the processes.                   *)
EXTENDS GAScan
CONSTANTS N, P, Barrier   \* length, processes; Barrier = FALSE: values are read while others add to theirs
VARIABLES msk, cut, lo, hi, excl, pc, dst, sum
vars == <<msk, cut, lo, hi, excl, pc, dst, sum>>
Procs == 1..P
Src == [k \in 1..N |-> 2^(k - 1)]
Old == [k \in 1..N |-> -1000 * k]
E0 == [lo |-> lo, hi |-> hi, excl |-> excl]
Fst(p) == IF p = 1 THEN 1 ELSE cut[p - 1] + 1
Lst(p) == IF p = P THEN N ELSE cut[p]
Has(p) == Fst(p) <= Lst(p)
F(p) == IF Fst(p) < lo + 1 THEN lo + 1 ELSE Fst(p)
L(p) == IF Lst(p) > hi + 1 THEN hi + 1 ELSE Lst(p)
\* the last mark in another process's block before mine
Before(p) == LastMark(msk, lo, F(p) - 1)

Init == /\ msk \in [1..N -> {0, 1}]
        /\ cut \in {c \in [1..(P - 1) -> 0..N] : \A i \in 1..(P - 2) : c[i] <= c[i + 1]}
        /\ lo \in 0..(N - 1) /\ hi \in 0..(N - 1) /\ lo <= hi
        /\ excl \in {0, 1}
        /\ pc = [p \in Procs |-> "scan"]
        /\ dst = Old
        /\ sum = [p \in Procs |-> 0]
\* the block alone: before its first mark the sum goes on from the block's beginning if there is a mark before
Local(p) ==
  LET from(k) == LastMark(msk, F(p) - 1, k)
  IN [k \in 1..N |-> IF ~ Has(p) \/ k \notin F(p)..L(p) THEN dst[k]
        ELSE IF from(k) > 0 THEN SumOf(Src, from(k), IF excl = 1 THEN k - 1 ELSE k)
        ELSE IF Before(p) = 0 THEN dst[k]
        ELSE IF excl = 1 THEN SumOf(Src, F(p) - 1, k - 1) ELSE SumOf(Src, F(p), k)]
Scan(p) == /\ pc[p] = "scan" /\ dst' = Local(p) /\ pc' = [pc EXCEPT ![p] = "read"] /\ UNCHANGED <<msk, cut, lo, hi, excl, sum>>
Needs(p) == Has(p) /\ F(p) <= L(p) /\ msk[F(p)] = 0 /\ Before(p) > 0
\* the ends of the blocks from the last mark's on
Read(p) == /\ pc[p] = "read" /\ \A q \in Procs : pc[q] # "scan"
           /\ sum' = [sum EXCEPT ![p] = IF Needs(p)
                THEN LET q == {x \in Procs : Has(x) /\ Lst(x) < F(p) /\ Lst(x) >= Before(p)}
                         RECURSIVE S(_)
                         S(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN dst[Lst(x)] + S(T \ {x})
                     IN S(q) ELSE 0]
           /\ pc' = [pc EXCEPT ![p] = "add"] /\ UNCHANGED <<msk, cut, lo, hi, excl, dst>>
Add(p) == /\ pc[p] = "add" /\ (Barrier => \A q \in Procs : pc[q] \in {"add", "done"})
          /\ dst' = [k \in 1..N |-> IF Needs(p) /\ k \in F(p)..L(p) /\ LastMark(msk, F(p) - 1, k) = 0 THEN dst[k] + sum[p] ELSE dst[k]]
          /\ pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED <<msk, cut, lo, hi, excl, sum>>
Next == \E p \in Procs : Scan(p) \/ Read(p) \/ Add(p)
Spec == Init /\ [][Next]_vars
Correct == (\A p \in Procs : pc[p] = "done") => dst = ScanAdded(Src, Old, msk, E0)

\* packing: everyone puts his marked elements after those of the processes before him
PackBy(p) == LET mine == SelectSeq([i \in 1..(L(p) - F(p) + 1) |-> F(p) + i - 1], LAMBDA k : msk[k] # 0) IN mine
RECURSIVE PackAll(_)
PackAll(p) == IF p = 0 THEN <<>> ELSE PackAll(p - 1) \o (IF Has(p) /\ F(p) <= L(p) THEN PackBy(p) ELSE <<>>)
PackCorrect == (\A p \in Procs : pc[p] = "scan") =>
   LET q == PackAll(P)
       pk == Packed(Src, Old, msk, E0)
   IN /\ q = Marked(msk, E0)
      /\ \A k \in 1..Len(q) : Unpacked(pk, Old, msk, E0)[q[k]] = Src[q[k]]
      /\ \A k \in 1..N : msk[k] = 0 => Unpacked(pk, Old, msk, E0)[k] = Old[k]
=============================================================================
