------------------------------- MODULE GAProp -------------------------------
(* Properties and replication.  A property of an array changes where reads   *)
(* are served from, never what they return: in the specification setting and *)
(* clearing one leaves everything as it is, and the reads of GAData decide.  *)
(* A mirrored array is one array per node (the numbers e.as): merging makes  *)
(* every copy the sum of all, merging a patch stores the sum of the copies   *)
(* in a section of a distributed array.                                      *)
EXTENDS GAData

SumOver(as, k) == FoldLeft(LAMBDA s, a : s + arr[a].data[k], 0, as)
Merged(e) ==
  LET d == arr[e.as[1]].data
      sum == TLCEval([k \in DOMAIN d |-> SumOver(e.as, k)])
  IN [a \in DOMAIN arr |-> IF a \in Range(e.as) THEN [arr[a] EXCEPT !.data = sum] ELSE arr[a]]
PatchMerged(e) ==
  LET from == TLCEval(SectionCells(arr[e.as[1]].dims, e.lo, e.hi))
      to == TLCEval(SectionCells(arr[e.b].dims, e.blo, e.bhi))
  IN [arr EXCEPT ![e.b].data = Store(@, to, [k \in DOMAIN from |-> SumOver(e.as, from[k])])]
Spread(e) == [a \in DOMAIN arr |-> IF a \in Range(e.ds) THEN [arr[a] EXCEPT !.data = arr[e.s].data] ELSE arr[a]]
PropData(e) == CASE e.op = "merge" -> Merged(e)
                 [] e.op = "mpatch" -> PatchMerged(e)
                 [] e.op = "mcopy" -> Spread(e)
=============================================================================
