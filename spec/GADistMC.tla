----------------------------- MODULE GADistMC -----------------------------
(* GADist on all small requests: what a request determines is a partition,   *)
(* the round-robin and grid owners give every block exactly one owner, the   *)
(* pieces of a section are exactly its cells, and the blocks the library     *)
(* chooses for a regular array (an even cut along a grid of the processes)   *)
(* satisfy what is asked of them.                                            *)
EXTENDS GADist, TLC
CONSTANTS MaxD, NDim, MaxP, EvenCut
VARIABLE q

Dims == [1..NDim -> 1..MaxD]
Grids(n) == {g \in [1..NDim -> 1..MaxP] : Prod(g) = n}
\* all ascending lists of block starts of a dimension of d cells
StartsOf(d) == {<<0>> \o SetToSortSeq(S, <) : S \in SUBSET (1..(d - 1))}
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

Boxes(dims) == {b \in [lo : [1..NDim -> 0..(MaxD - 1)], hi : [1..NDim -> 0..(MaxD - 1)]] :
                  \A i \in 1..NDim : b.lo[i] <= b.hi[i] /\ b.hi[i] < dims[i]}
Init == \E d \in Dims, n \in 1..MaxP :
          /\ \/ \E k \in {"bc"}, b \in [1..NDim -> 1..MaxD] : q = [kind |-> k, dims |-> d, n |-> n, block |-> b]
             \/ \E k \in {"scalapack", "tiled"}, b \in [1..NDim -> 1..MaxD], g \in Grids(n) :
                  q = [kind |-> k, dims |-> d, n |-> n, block |-> b, grid |-> g]
             \/ \E ss \in {f \in [1..NDim -> UNION {StartsOf(d[i]) : i \in 1..NDim}] : \A i \in 1..NDim : f[i] \in StartsOf(d[i])} :
                  \/ Prod([i \in 1..NDim |-> Len(ss[i])]) <= n
                     /\ q = [kind |-> "irreg", dims |-> d, n |-> n, map |-> Flat(ss), nblock |-> [i \in 1..NDim |-> Len(ss[i])]]
                  \/ \E g \in Grids(n) :
                     q = [kind |-> "tiledirreg", dims |-> d, n |-> n, map |-> Flat(ss), nblock |-> [i \in 1..NDim |-> Len(ss[i])], grid |-> g]
             \/ \E g \in Grids(n), c \in [1..NDim -> 1..MaxD] : q = [kind |-> "reg", dims |-> d, n |-> n, grid |-> g, chunk |-> c]
Next == UNCHANGED <<q>>
Spec == Init /\ [][Next]_<<q>>

\* the library's regular cut: blocks of CeilDiv(d, g) cells, at least the chunk
RegCut(d, g, c) == LET w == IF EvenCut THEN (IF CeilDiv(d, g) < c THEN c ELSE CeilDiv(d, g)) ELSE d \div g
                   IN [k \in 1..g |-> <<(k - 1) * w, IF k = g /\ ~EvenCut THEN k * w - 1 ELSE IF k * w - 1 > d - 1 THEN d - 1 ELSE k * w - 1>>]
B == IF q.kind = "reg" THEN GridBlocks([i \in 1..NDim |-> RegCut(q.dims[i], q.grid[i], q.chunk[i])]) ELSE GridBlocks(Cuts(q))
\* place of process p on the grid
Pi == IF q.kind \in {"scalapack", "tiled", "tiledirreg"}
      THEN Flat([p \in 1..q.n |-> Coord(q.grid, p)]) ELSE <<>>
PartitionOK == BlocksOK(q, B)
OneOwner == \A b \in DOMAIN B : b \in UNION {Owned(q, B, Pi, p) : p \in 0..(q.n - 1)} /\
              \A p, r \in 0..(q.n - 1) : (p # r) => ~ (b \in Owned(q, B, Pi, p) /\ b \in Owned(q, B, Pi, r))
\* the pieces of a section are the section
PiecesOf(bl, x) == LET ps == {b \in DOMAIN bl : ~Empty(bl[b]) /\ Meet(x, bl[b])}
                   IN FoldLeft(LAMBDA a, b : a + Vol(Inter(x, bl[b])), 0, SetToSeq(ps)) = Vol(x)
Pieces == LET bl == TLCEval(B) IN \A x \in Boxes(q.dims) : PiecesOf(bl, x)
Cells == UNION {OwnCells(q, B, Pi, p) : p \in 0..(q.n - 1)} = 1..Prod(q.dims)
=============================================================================
