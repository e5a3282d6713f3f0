----------------------------- MODULE GAIndexMC -----------------------------
(* The index arithmetic of GAIndex against the textbook definitions, for all *)
(* arrays up to three dimensions of at most MaxD cells and all sections.     *)
EXTENDS GAIndex, FiniteSets, TLC
CONSTANT MaxD, MaxN
VARIABLES dims, lo, hi
AllDims == UNION {[1..n -> 1..MaxD] : n \in 1..MaxN}
Init == /\ dims \in AllDims
        /\ lo \in [1..Len(dims) -> -MaxD..(2 * MaxD - 1)]
        /\ hi \in [1..Len(dims) -> -MaxD..(2 * MaxD - 1)]
        /\ \A i \in 1..Len(dims) : lo[i] <= hi[i] /\ hi[i] - lo[i] < dims[i] /\ lo[i] >= -dims[i] /\ hi[i] < 2 * dims[i]
Next == UNCHANGED <<dims, lo, hi>>
Spec == Init /\ [][Next]_<<dims, lo, hi>>
Inside == \A i \in 1..Len(dims) : lo[i] >= 0 /\ hi[i] < dims[i]
Coords == {c \in [1..Len(dims) -> 0..(MaxD - 1)] : \A i \in 1..Len(dims) : c[i] < dims[i]}
\* Lin numbers the cells 1..Size one to one, and Coord undoes it
Numbering == /\ {Lin(dims, c) : c \in Coords} = 1..Size(dims)
             /\ \A c \in Coords : Coord(dims, Lin(dims, c)) = c
\* a section is its coordinates in row-major order of the buffer
SectionOK == Inside =>
  LET s == SectionCells(dims, lo, hi)
  IN /\ Len(s) = Size(Shape(lo, hi))
     /\ {s[j] : j \in 1..Len(s)} = {Lin(dims, c) : c \in {x \in Coords : InBox(x, lo, hi)}}
     /\ \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
\* stepping by skip takes every skip-th coordinate
StridedOK == Inside => \A k \in 1..2 :
  LET sk == [i \in 1..Len(dims) |-> IF i % 2 = 0 THEN k ELSE 3 - k]
      s == StridedCells(dims, lo, hi, sk)
  IN /\ {s[j] : j \in 1..Len(s)} =
          {Lin(dims, c) : c \in {x \in Coords : InBox(x, lo, hi) /\ \A i \in 1..Len(dims) : (x[i] - lo[i]) % sk[i] = 0}}
     /\ \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
\* a periodic section no longer than the array covers each cell at most once; inside it is the section
PeriodicOK ==
  LET s == PeriodicCells(dims, lo, hi)
  IN /\ Inside => s = SectionCells(dims, lo, hi)
     /\ Cardinality({s[j] : j \in 1..Len(s)}) = Len(s)
     /\ \A j \in 1..Len(s) : s[j] \in 1..Size(dims)
=============================================================================
