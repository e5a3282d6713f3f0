------------------------------ MODULE GAGhosts ------------------------------
(* Ghost cells.  The memory of a process with ghost cells is its block of     *)
(* the array, padded by w cells at both ends of every dimension.  The padding *)
(* mirrors the array periodically, but only when it is updated; a process may *)
(* also write it.  gst: array -> [w, b], b: process -> [lo, hi, v], v the     *)
(* contents of the padded block in row-major order (of the padding only:      *)
(* inside the block they are the array's).                                    *)
EXTENDS GAIndex, FiniteSets, TLC

GhUnknown == -2000000000

GhShape(b, w) == [i \in 1..Len(w) |-> b.hi[i] - b.lo[i] + 1 + 2 * w[i]]
\* array coordinates (not wrapped) of cell k of the padded block
GhAt(b, w, sh, k) == LET c == Coord(sh, k) IN [i \in 1..Len(w) |-> b.lo[i] - w[i] + c[i]]
\* where it lies: -1, 0 or 1 in every dimension
GhSide(b, g) == [i \in 1..Len(g) |-> IF g[i] < b.lo[i] THEN -1 ELSE IF g[i] > b.hi[i] THEN 1 ELSE 0]
GhInside(b, g) == \A i \in 1..Len(g) : b.lo[i] <= g[i] /\ g[i] <= b.hi[i]
\* the cell of the array it mirrors
GhMirror(dims, g) == Lin(dims, [i \in 1..Len(g) |-> g[i] % dims[i]])

\* does an update by e set the padding at the side s?  A cell beyond the block in more than one
\* dimension is a corner.  1: yes, 0: no, 2: it need not
GhSets(e, s) ==
  LET out == {i \in DOMAIN s : s[i] # 0}
  IN CASE e.f = "full" -> IF Cardinality(out) = 1 \/ e.flag = 1 THEN 1 ELSE 2
       [] e.f = "dir"  -> IF s[e.d] # e.s THEN 0 ELSE IF Cardinality(out) = 1 \/ e.flag = 1 THEN 1 ELSE 0
       [] e.f = "mask" -> IF \A i \in DOMAIN e.mask : s[i] = e.mask[i] THEN 1 ELSE 0

\* the padding after an update, given the array's contents
GhUpdated(dims, data, b, w, e) ==
  LET sh == GhShape(b, w)
  IN [k \in DOMAIN b.v |->
        LET g == GhAt(b, w, sh, k)
            s == GhSide(b, g)
        IN IF \A i \in DOMAIN s : s[i] = 0 THEN b.v[k]
           ELSE CASE GhSets(e, s) = 1 -> data[GhMirror(dims, g)]
                  [] GhSets(e, s) = 2 -> GhUnknown
                  [] OTHER -> b.v[k]]

\* contents of the padded block
GhLook(dims, data, b, w) ==
  LET sh == GhShape(b, w)
  IN [k \in DOMAIN b.v |-> LET g == GhAt(b, w, sh, k) IN IF GhInside(b, g) THEN data[GhMirror(dims, g)] ELSE b.v[k]]
\* a reading agrees with what is known
GhAgrees(v, want) == Len(v) = Len(want) /\ \A k \in DOMAIN v : want[k] = GhUnknown \/ v[k] = want[k]

\* a section, in array coordinates: from the padded block if it lies in it, else periodically from the array
GhSection(dims, data, b, w, lo, hi) ==
  LET n == Len(dims)
      within == \A i \in 1..n : b.lo[i] - w[i] <= lo[i] /\ hi[i] <= b.hi[i] + w[i]
      sh == GhShape(b, w)
  IN IF within
     THEN LET all == GhLook(dims, data, b, w)
              ss == Shape(lo, hi)
          IN [j \in 1..Size(ss) |-> LET c == Coord(ss, j) IN all[Lin(sh, [i \in 1..n |-> lo[i] + c[i] - b.lo[i] + w[i]])]]
     ELSE LET c == PeriodicCells(dims, lo, hi) IN [j \in DOMAIN c |-> data[c[j]]]
=============================================================================
