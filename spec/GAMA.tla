-------------------------------- MODULE GAMA --------------------------------
(* The memory allocator as its users see it.  A block has a kind ("heap" or  *)
(* "stack"), a datatype t, n elements and occupies the bytes lo..hi-1 of the  *)
(* arena (its client space; what the allocator keeps around it is not seen).  *)
EXTENDS Integers, Sequences, FiniteSets

Overlap(a, b) == a.lo < b.hi /\ b.lo < a.hi
(* bytes the allocator may need around a block of a datatype whose overhead is ov elements of size sz *)
Pow2(k) == 2 ^ k
Slack(ov, na) == 5 * ov + 2 * Pow2(na) + 128
Ends(S) == {b.hi : b \in S}
Starts(S) == {b.lo : b \in S}
(* free intervals as seen from outside: a heap request may use any interval that   *)
(* begins at the start of the arena or at the end of a heap block                  *)
Least(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
Most(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x
HeapGaps(B, size) == {Least(Starts(B), size)} \cup
                     {Least({x.lo : x \in {y \in B \ {b} : y.lo >= b.hi}}, size) - b.hi : b \in {c \in B : c.kind = "heap"}}
StackGap(B, size) == Least(Starts({b \in B : b.kind = "stack"}), size) - Most(Ends({b \in B : b.kind = "heap"}), 0)
Biggest(S) == Most(S, 0)
=============================================================================
