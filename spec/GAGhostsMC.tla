----------------------------- MODULE GAGhostsMC -----------------------------
(* Updating ghost cells by shifts, as GA does: dimension after dimension,     *)
(* every process fetches from its neighbours in that dimension slabs that     *)
(* include the ghost cells of the dimensions already done; so corners arrive  *)
(* without communication between diagonal neighbours.  Between dimensions the *)
(* processes must wait for each other.  A grid of PX x PY processes, blocks   *)
(* of NX x NY cells, ghost widths W (also wider than a block).  Compared with *)
(* GhUpdated of GAGhosts.                                                     *)
EXTENDS GAGhosts
CONSTANTS PX, PY, NX, NY, W, Wait    \* Wait = FALSE: nobody waits (broken)
VARIABLES phase, todo, v

P == 0..(PX * PY - 1)
dims == <<PX * NX, PY * NY>>
ww == <<W, W>>
data == [k \in 1..Size(dims) |-> k]
Pos(p) == <<p \div PY, p % PY>>
Blk(p) == [lo |-> <<Pos(p)[1] * NX, Pos(p)[2] * NY>>, hi |-> <<Pos(p)[1] * NX + NX - 1, Pos(p)[2] * NY + NY - 1>>]
sh == <<NX + 2 * W, NY + 2 * W>>
K == 1..Size(sh)

\* cells to fetch in dimension d: beyond the block in d; the dimensions after d inside
Slab(p, d) == {k \in K : LET s == GhSide(Blk(p), GhAt(Blk(p), ww, sh, k))
                         IN s[d] # 0 /\ \A i \in 1..2 : i > d => s[i] = 0}
\* who holds it, and where there: wrapped in dimension d only, dimensions before d at the same place
Owner(p, d, k) ==
  LET g == GhAt(Blk(p), ww, sh, k)
      x == g[d] % dims[d]
  IN IF d = 1 THEN (x \div NX) * PY + Pos(p)[2] ELSE Pos(p)[1] * PY + x \div NY
From(p, d, k) ==
  LET g == GhAt(Blk(p), ww, sh, k)
      q == Owner(p, d, k)
      x == g[d] % dims[d]
  IN Lin(sh, [i \in 1..2 |-> IF i = d THEN x - Blk(q).lo[d] + W ELSE g[i] - Blk(p).lo[i] + W])

Init == /\ phase = [p \in P |-> 1]
        /\ todo = [p \in P |-> {"neg", "pos"}]
        /\ v = [p \in P |-> [k \in K |-> LET g == GhAt(Blk(p), ww, sh, k) IN
                   IF GhInside(Blk(p), g) THEN data[GhMirror(dims, g)] ELSE GhUnknown]]
Side(p, k, d) == IF GhSide(Blk(p), GhAt(Blk(p), ww, sh, k))[d] < 0 THEN "neg" ELSE "pos"
Fetch(p) ==
  /\ phase[p] <= 2
  /\ \E s \in todo[p] :
       LET d == phase[p]
           c == {k \in Slab(p, d) : Side(p, k, d) = s}
       IN /\ v' = [v EXCEPT ![p] = [k \in K |-> IF k \in c THEN v[Owner(p, d, k)][From(p, d, k)] ELSE @[k]]]
          /\ todo' = [todo EXCEPT ![p] = @ \ {s}]
          /\ UNCHANGED phase
Step(p) ==
  /\ phase[p] <= 2 /\ todo[p] = {}
  /\ Wait => \A q \in P : phase[q] > phase[p] \/ (phase[q] = phase[p] /\ todo[q] = {})
  /\ phase' = [phase EXCEPT ![p] = @ + 1]
  /\ todo' = [todo EXCEPT ![p] = {"neg", "pos"}]
  /\ UNCHANGED v
Next == (\E p \in P : Fetch(p) \/ Step(p)) \/ ((\A p \in P : phase[p] = 3) /\ UNCHANGED <<phase, todo, v>>)
Spec == Init /\ [][Next]_<<phase, todo, v>>

Right(p) == LET b == Blk(p) @@ [v |-> [k \in K |-> GhUnknown]]
            IN GhUpdated(dims, data, b, ww, [f |-> "full", flag |-> 1])
Correct == \A p \in P : phase[p] = 3 =>
             \A k \in K : v[p][k] = IF GhInside(Blk(p), GhAt(Blk(p), ww, sh, k)) THEN data[GhMirror(dims, GhAt(Blk(p), ww, sh, k))] ELSE Right(p)[k]
=============================================================================
