------------------------------ MODULE GAIndex ------------------------------
(* Index arithmetic of dense arrays: coordinates are tuples from zero, the  *)
(* last one varies fastest (the C interface of Global Arrays); the cells of *)
(* an array are numbered 1..Size.                                           *)
EXTENDS Integers, Sequences, SequencesExt

Size(dims) == FoldLeft(LAMBDA x, y : x * y, 1, dims)

\* 1-based number of the cell with coordinates c
Lin(dims, c) == 1 + FoldLeftDomain(LAMBDA x, i : x * dims[i] + c[i], 0, dims)

\* number of cells that one step in dimension i skips
StrideOf(dims, i) == FoldLeft(LAMBDA x, y : x * y, 1, SubSeq(dims, i + 1, Len(dims)))

\* coordinates of the cell with number k (1-based)
Coord(dims, k) == [i \in 1..Len(dims) |-> ((k - 1) \div StrideOf(dims, i)) % dims[i]]

\* shape of the section lo..hi taken in steps of skip
Shape(lo, hi) == [i \in 1..Len(lo) |-> hi[i] - lo[i] + 1]
ShapeSkip(lo, hi, skip) == [i \in 1..Len(lo) |-> (hi[i] - lo[i]) \div skip[i] + 1]

InBox(c, lo, hi) == \A i \in 1..Len(c) : lo[i] <= c[i] /\ c[i] <= hi[i]

(* The four ways a one-sided operation addresses cells; each gives, for     *)
(* every item of the caller's buffer in buffer order, the cell it stands    *)
(* for.                                                                     *)
SectionCells(dims, lo, hi) ==
  LET sh == Shape(lo, hi)
      st == [i \in 1..Len(dims) |-> StrideOf(dims, i)]
      ss == [i \in 1..Len(dims) |-> StrideOf(sh, i)]
  IN [j \in 1..Size(sh) |->
        1 + FoldLeftDomain(LAMBDA x, i : x + st[i] * (lo[i] + (((j - 1) \div ss[i]) % sh[i])), 0, dims)]

StridedCells(dims, lo, hi, skip) ==
  LET sh == ShapeSkip(lo, hi, skip)
      st == [i \in 1..Len(dims) |-> StrideOf(dims, i)]
      ss == [i \in 1..Len(dims) |-> StrideOf(sh, i)]
  IN [j \in 1..Size(sh) |->
        1 + FoldLeftDomain(LAMBDA x, i : x + st[i] * (lo[i] + skip[i] * (((j - 1) \div ss[i]) % sh[i])), 0, dims)]

\* indices beyond the array wrap around in every dimension
PeriodicCells(dims, lo, hi) ==
  LET sh == Shape(lo, hi)
      st == [i \in 1..Len(dims) |-> StrideOf(dims, i)]
      ss == [i \in 1..Len(dims) |-> StrideOf(sh, i)]
  IN [j \in 1..Size(sh) |->
        1 + FoldLeftDomain(LAMBDA x, i : x + st[i] * ((lo[i] + (((j - 1) \div ss[i]) % sh[i])) % dims[i]), 0, dims)]

\* a flat list of subscripts, Len(dims) numbers each
ListCells(dims, s) ==
  LET n == Len(dims)
  IN [j \in 1..(Len(s) \div n) |-> Lin(dims, SubSeq(s, (j - 1) * n + 1, j * n))]

\* what the operations do to the contents
Store(data, cells, v) ==
  FoldLeftDomain(LAMBDA d, j : [d EXCEPT ![cells[j]] = v[j]], data, cells)
Accumulate(data, cells, v, alpha) ==
  FoldLeftDomain(LAMBDA d, j : [d EXCEPT ![cells[j]] = @ + alpha * v[j]], data, cells)
\* complex numbers: cells come in pairs (re, im), as do v and alpha
AccumulateC(data, cells, v, al) ==
  FoldLeftDomain(LAMBDA d, j :
     IF j % 2 = 1
     THEN [d EXCEPT ![cells[j]] = @ + al[1] * v[j] - al[2] * v[j + 1],
                    ![cells[j + 1]] = @ + al[1] * v[j + 1] + al[2] * v[j]]
     ELSE d, data, cells)
Load(data, cells) == [j \in 1..Len(cells) |-> data[cells[j]]]
=============================================================================
