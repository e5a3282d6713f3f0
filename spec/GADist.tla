------------------------------- MODULE GADist -------------------------------
(* Distributions.  An array is cut into blocks; a distribution is the list   *)
(* D of blocks [lo, hi] (an empty block has hi < lo), indexed by process     *)
(* (regular, chunked, irregular, restricted) or by block number (cyclic and  *)
(* tiled kinds).  What the user requests determines the blocks, except that  *)
(* regular distributions leave the cuts to the library; every query must     *)
(* describe one and the same partition.                                      *)
EXTENDS GAIndex, FiniteSets, TLC

Prod(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
CeilDiv(a, b) == (a + b - 1) \div b

\* a flat list of numbers, 2n for each block
BoxOf(D, n, b) == [lo |-> SubSeq(D, 2 * n * b + 1, 2 * n * b + n), hi |-> SubSeq(D, 2 * n * b + n + 1, 2 * n * b + 2 * n)]
NBoxes(D, n) == Len(D) \div (2 * n)
Blocks(D, n) == TLCEval([b \in 0..(NBoxes(D, n) - 1) |-> BoxOf(D, n, b)])
Empty(x) == \E i \in 1..Len(x.lo) : x.hi[i] < x.lo[i]
Inter(x, y) == [lo |-> [i \in 1..Len(x.lo) |-> IF x.lo[i] > y.lo[i] THEN x.lo[i] ELSE y.lo[i]],
                hi |-> [i \in 1..Len(x.lo) |-> IF x.hi[i] < y.hi[i] THEN x.hi[i] ELSE y.hi[i]]]
Meet(x, y) == \A i \in 1..Len(x.lo) : x.lo[i] <= y.hi[i] /\ y.lo[i] <= x.hi[i]
Vol(x) == IF Empty(x) THEN 0 ELSE Prod([i \in 1..Len(x.lo) |-> x.hi[i] - x.lo[i] + 1])

\* every cell lies in exactly one block
Partition(B, dims) ==
  LET ne == {b \in DOMAIN B : ~Empty(B[b])}
  IN /\ \A b \in ne : \A i \in 1..Len(dims) : 0 <= B[b].lo[i] /\ B[b].hi[i] < dims[i]
     /\ \A b, c \in ne : b < c => ~Meet(B[b], B[c])
     /\ FoldLeft(LAMBDA x, y : x + Vol(B[y]), 0, SetToSeq(ne)) = Prod(dims)

(* ---- the blocks a request determines ---- *)
\* number of blocks in every dimension, and where block k of dimension i starts and ends
Cuts(q) ==
  LET n == Len(q.dims)
      off(i) == FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(q.nblock, 1, i - 1))
  IN TLCEval(IF q.kind \in {"irreg", "ghost", "tiledirreg"}
     THEN [i \in 1..n |-> [k \in 1..q.nblock[i] |->
             <<q.map[off(i) + k], IF k < q.nblock[i] THEN q.map[off(i) + k + 1] - 1 ELSE q.dims[i] - 1>>]]
     ELSE [i \in 1..n |-> [k \in 1..CeilDiv(q.dims[i], q.block[i]) |->
             <<(k - 1) * q.block[i], IF k * q.block[i] < q.dims[i] THEN k * q.block[i] - 1 ELSE q.dims[i] - 1>>]])
GridBlocks(cuts) ==
  LET nb == TLCEval([i \in 1..Len(cuts) |-> Len(cuts[i])])
  IN TLCEval([b \in 0..(Prod(nb) - 1) |->
        LET c == Coord(nb, b + 1)
        IN [lo |-> [i \in 1..Len(cuts) |-> cuts[i][c[i] + 1][1]], hi |-> [i \in 1..Len(cuts) |-> cuts[i][c[i] + 1][2]]]])
Cyclic(q) == q.kind \in {"bc", "scalapack", "tiled", "tiledirreg"}
HasGrid(q) == q.kind \in {"scalapack", "tiled", "tiledirreg"}
Fixed(q) == Cyclic(q) \/ q.kind \in {"irreg", "ghost"}
\* which blocks a process owns; pi: the grid coordinates of the processes
Owned(q, B, pi, p) ==
  IF ~Cyclic(q) THEN {p}
  ELSE IF q.kind = "bc" THEN {b \in DOMAIN B : b % q.n = p}
  ELSE LET cu == Cuts(q)
           nb == TLCEval([i \in 1..Len(q.dims) |-> Len(cu[i])])
       IN {b \in DOMAIN B : \A i \in 1..Len(q.dims) : Coord(nb, b + 1)[i] % q.grid[i] = pi[Len(q.dims) * p + i]}

(* ---- the answers of the queries; q: the request, e: what was answered ---- *)
BlocksOK(q, B) ==
  /\ Partition(B, q.dims)
  /\ Fixed(q) => LET G == GridBlocks(Cuts(q))
                 IN \A b \in DOMAIN B \cup DOMAIN G :
                      IF b \in DOMAIN G THEN b \in DOMAIN B /\ B[b] = G[b] ELSE Empty(B[b])
  /\ "chunk" \in DOMAIN q =>
       \A b \in DOMAIN B : Empty(B[b]) \/ \A i \in 1..Len(q.dims) :
          B[b].hi[i] = q.dims[i] - 1 \/ B[b].hi[i] - B[b].lo[i] + 1 >= q.chunk[i]
  /\ "restrict" \in DOMAIN q => \A b \in DOMAIN B : Empty(B[b]) \/ b \in Range(q.restrict)
LocateOK(q, B, pts, L) ==
  \A k \in 1..Len(L) : /\ L[k] \in DOMAIN B
                       /\ InBox(SubSeq(pts, (k - 1) * Len(q.dims) + 1, k * Len(q.dims)), B[L[k]].lo, B[L[k]].hi)
\* pieces of the sections: R is a flat list, for each section: m, m times (block, lo, hi), the
\* number of owners and the number of blocks
RECURSIVE RegionsOK(_, _, _, _, _, _)
RegionsOK(q, B, boxes, R, k, at) ==
  LET n == Len(q.dims)
  IN IF k > Len(boxes) \div (2 * n) THEN at = Len(R) + 1
     ELSE LET x == BoxOf(boxes, n, k - 1)
              m == R[at]
              want == {b \in DOMAIN B : ~Empty(B[b]) /\ Meet(x, B[b])}
              base(j) == at + 1 + (j - 1) * (2 * n + 1)
              end == base(m + 1)
          IN /\ m = Cardinality(want)
             /\ {R[base(j)] : j \in 1..m} = want
             /\ \A j \in 1..m : /\ SubSeq(R, base(j) + 1, base(j) + n) = Inter(x, B[R[base(j)]]).lo
                                /\ SubSeq(R, base(j) + n + 1, base(j) + 2 * n) = Inter(x, B[R[base(j)]]).hi
             /\ R[end] = m
             /\ R[end + 1] = IF Cyclic(q) THEN m ELSE -1
             /\ RegionsOK(q, B, boxes, R, k + 1, end + 2)
Starts(B, i) == {B[b].lo[i] : b \in {c \in DOMAIN B : ~Empty(B[c])}}
CountsOK(q, B, e) ==
  LET n == Len(q.dims)
  IN /\ e.nb = IF Cyclic(q) THEN Cardinality(DOMAIN B) ELSE -1
     /\ Len(e.D) = 2 * n * (IF Cyclic(q) THEN e.nb ELSE q.n)
     /\ e.nblk = [i \in 1..n |-> Cardinality(Starts(B, i))]
     /\ e.grid = IF HasGrid(q) THEN 1 ELSE 0
     /\ HasGrid(q) => /\ e.pg = q.grid
                      /\ LET c == {SubSeq(e.pi, n * p + 1, n * p + n) : p \in 0..(q.n - 1)}
                         IN Cardinality(c) = q.n /\ \A x \in c : \A i \in 1..n : 0 <= x[i] /\ x[i] < q.grid[i]
     /\ e.bn # <<>> => e.bn = [i \in 1..n |-> Len(Cuts(q)[i])] /\ e.bd = q.block
     \* block coordinates: the number of cuts before the block
     /\ e.topo # <<>> => \A p \in DOMAIN B : Empty(B[p]) \/
          \A i \in 1..n : e.topo[n * p + i] = Cardinality({s \in Starts(B, i) : s < B[p].lo[i]})
     /\ e.dims = q.dims /\ e.meta = 1
\* the cells of a process's blocks, as direct access shows them
OwnCells(q, B, pi, p) ==
  UNION {Range(SectionCells(q.dims, B[b].lo, B[b].hi)) : b \in {c \in TLCEval(Owned(q, B, pi, p)) : c \in DOMAIN B /\ ~Empty(B[c])}}
=============================================================================
