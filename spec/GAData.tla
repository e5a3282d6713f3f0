------------------------------- MODULE GAData -------------------------------
(* The data a Global Arrays program sees: arrays of values, one-sided        *)
(* operations on sections, strided sections, periodic sections and           *)
(* subscript lists, blocking and non-blocking.  The distribution of an       *)
(* array, the port and the transport do not appear: the property is that     *)
(* they cannot be seen.                                                      *)
(*                                                                           *)
(* An operation is a record.  Eff and Obs say what it does to the state and  *)
(* what its caller sees; GADataMC enumerates operations and checks the       *)
(* module, GADataTrace takes the operations from a recorded run.             *)
EXTENDS GAIndex, FiniteSets, TLC

VARIABLES arr,    \* array number -> [dims, data] (data = <<>> when it does not exist)
          pend,   \* rank -> (handle -> operation): non-blocking operations not yet waited for
          cover   \* cells found in local blocks since the last "localend"
dvars == <<arr, pend, cover>>

NoArray == [dims |-> <<>>, data |-> <<>>]
MaxArr == 16

DInit == /\ arr = [a \in 0..(MaxArr - 1) |-> NoArray]
         /\ pend = <<>>
         /\ cover = <<>>

PutOps == {"put", "pput", "sput", "scatter", "nbput"}
AccOps == {"acc", "pacc", "sacc", "scatacc", "nbacc"}
GetOps == {"get", "pget", "sget", "gather", "nbget"}
NbOps == {"nbput", "nbacc", "nbget"}

\* cells addressed by operation e, in the order of the caller's buffer
Cells(e) ==
  LET d == arr[e.a].dims
  IN CASE e.op \in {"put", "acc", "get", "nbput", "nbacc", "nbget"} -> SectionCells(d, e.lo, e.hi)
       [] e.op \in {"pput", "pacc", "pget"} -> PeriodicCells(d, e.lo, e.hi)
       [] e.op \in {"sput", "sacc", "sget"} -> StridedCells(d, e.lo, e.hi, e.skip)
       [] e.op \in {"scatter", "scatacc", "gather"} -> ListCells(d, e.s)

\* the contents after e takes effect
Apply(e) ==
  LET d == arr[e.a].data
      c == Cells(e)
  IN CASE e.op \in PutOps -> Store(d, c, e.v)
       [] e.op \in AccOps -> IF "calpha" \in DOMAIN e THEN AccumulateC(d, c, e.v, e.calpha) ELSE Accumulate(d, c, e.v, e.alpha)
       [] e.op \in GetOps -> d

\* what the caller of a get sees
Read(e) == Load(arr[e.a].data, Cells(e))

SetData(a, d) == arr' = [arr EXCEPT ![a].data = d]

(* ---- the transitions; e carries the operation and what was observed ---- *)
Create(e) == /\ arr' = [arr EXCEPT ![e.a] = [dims |-> e.dims, data |-> [k \in 1..Size(e.dims) |-> e.x]]]
             /\ UNCHANGED <<pend, cover>>
Destroy(e) == /\ arr' = [arr EXCEPT ![e.a] = NoArray]
              /\ UNCHANGED <<pend, cover>>

\* a completed blocking put, accumulate or scatter; the caller's buffer is only read
BlockingStore(e) == /\ e.op \in (PutOps \cup AccOps) \ NbOps
                    /\ e.pad = 0
                    /\ SetData(e.a, Apply(e))
                    /\ UNCHANGED <<pend, cover>>
\* a completed get or gather: exactly the addressed cells, nothing beside them
BlockingLoad(e) == /\ e.op \in GetOps \ NbOps
                   /\ e.v = Read(e)
                   /\ e.pad = 0
                   /\ UNCHANGED dvars
\* issue of a non-blocking operation: nothing can be said until it is waited for
Issue(e) == /\ e.op \in NbOps
            /\ <<e.r, e.h>> \notin DOMAIN pend
            /\ pend' = pend @@ (<<e.r, e.h>> :> e)
            /\ UNCHANGED <<arr, cover>>
\* completion
Complete(e) ==
  LET q == pend[<<e.r, e.h>>]
  IN /\ <<e.r, e.h>> \in DOMAIN pend
     /\ e.pad = 0
     /\ IF q.op = "nbget" THEN e.v = Read(q) /\ UNCHANGED arr
                          ELSE SetData(q.a, Apply(q))
     /\ pend' = [x \in DOMAIN pend \ {<<e.r, e.h>>} |-> pend[x]]
     /\ UNCHANGED cover
Fill(e) == /\ SetData(e.a, [k \in 1..Len(arr[e.a].data) |-> e.x])
           /\ UNCHANGED <<pend, cover>>
\* the blocks this process owns, read by direct access (and increased by e.add there)
Local(e) ==
  LET n == Len(e.o) \div 2
      ad == IF "add" \in DOMAIN e THEN e.add ELSE 0
      idx == [j \in 1..n |-> e.o[2 * j - 1] + 1]
      val == [j \in 1..n |-> e.o[2 * j]]
  IN /\ \A j \in 1..n : val[j] = arr[e.a].data[idx[j]] + ad
     /\ cover' = cover \o idx
     /\ IF ad = 0 THEN UNCHANGED arr ELSE SetData(e.a, Store(arr[e.a].data, idx, val))
     /\ UNCHANGED pend
\* together the blocks of all processes are the array, no cell twice
LocalEnd(e) == /\ Len(cover) = Len(arr[e.a].data)
               /\ {cover[j] : j \in 1..Len(cover)} = 1..Len(arr[e.a].data)
               /\ cover' = <<>>
               /\ UNCHANGED <<arr, pend>>
LocalDrop(e) == cover' = <<>> /\ UNCHANGED <<arr, pend>>
ReadInc(e) == /\ e.v = arr[e.a].data[Lin(arr[e.a].dims, e.lo)]
              /\ SetData(e.a, [arr[e.a].data EXCEPT ![Lin(arr[e.a].dims, e.lo)] = @ + e.inc])
              /\ UNCHANGED <<pend, cover>>

DStep(e) ==
  CASE e.op = "create" -> Create(e)
    [] e.op = "destroy" -> Destroy(e)
    [] e.op \in NbOps -> Issue(e)
    [] e.op \in {"nbwait", "nbtest"} -> Complete(e)
    [] e.op \in PutOps \cup AccOps -> BlockingStore(e)
    [] e.op \in GetOps -> BlockingLoad(e)
    [] e.op \in {"fill", "zero"} -> Fill(e)
    [] e.op = "local" -> Local(e)
    [] e.op = "localend" -> LocalEnd(e)
    [] e.op = "localdrop" -> LocalDrop(e)
    [] e.op = "readinc" -> ReadInc(e)
    [] OTHER -> FALSE

\* what was expected, for the report of a mismatch
Expected(e) ==
  CASE e.op \in GetOps \ NbOps -> Read(e)
    [] e.op \in {"nbwait", "nbtest"} /\ <<e.r, e.h>> \in DOMAIN pend ->
         (IF pend[<<e.r, e.h>>].op = "nbget" THEN Read(pend[<<e.r, e.h>>]) ELSE <<"pad=0">>)
    [] e.op = "local" -> [j \in 1..(Len(e.o) \div 2) |-> arr[e.a].data[e.o[2 * j - 1] + 1]]
    [] e.op = "localend" -> <<"each cell once", Len(arr[e.a].data)>>
    [] e.op = "readinc" -> <<arr[e.a].data[Lin(arr[e.a].dims, e.lo)]>>
    [] OTHER -> <<"pad=0">>
=============================================================================
