------------------------------ MODULE GAPropMC ------------------------------
(* Read-only replication, read caches and mirrored arrays as they work, on   *)
(* one array of N cells and processes on nodes: whatever is read is what was *)
(* stored, whatever the order of stores, property changes and reads; merging *)
(* gives the sums however the nodes divide the array.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Vals, NodeOf,      \* NodeOf: process -> node
          MaxC,                 \* sections kept in a cache
          MaxLen,               \* bound on the length of a behaviour
          KeepCache,            \* broken: the cache survives the property
          GopMerge              \* broken when nodes differ: sums block j of every node
Nodes == {NodeOf[p] : p \in DOMAIN NodeOf}
Procs == DOMAIN NodeOf
Cells == 1..N

VARIABLES data,    \* what was stored
          main, copies, prop, cache,
          mir,     \* node -> its copy of a mirrored array
          got,     \* the last read: whether it was right
          len
vars == <<data, main, copies, prop, cache, mir, got, len>>

Init == /\ data = [i \in Cells |-> 0] /\ main = data
        /\ copies = [n \in Nodes |-> <<>>] /\ prop = "none" /\ cache = [p \in Procs |-> <<>>]
        /\ mir = [n \in Nodes |-> [i \in Cells |-> 0]]
        /\ got = TRUE /\ len = 0
Tick == len < MaxLen /\ len' = len + 1

Put(i, v) == /\ Tick /\ prop = "none" /\ main[i] # v
             /\ main' = [main EXCEPT ![i] = v] /\ data' = [data EXCEPT ![i] = v]
             /\ UNCHANGED <<copies, prop, cache, mir, got>>
SetRO == /\ Tick /\ prop = "none" /\ prop' = "ro"
         /\ copies' = [n \in Nodes |-> main] /\ main' = <<>>
         /\ UNCHANGED <<data, cache, mir, got>>
SetRC == /\ Tick /\ prop = "none" /\ prop' = "rc"
         /\ UNCHANGED <<data, main, copies, cache, mir, got>>
Unset == /\ Tick /\ prop # "none" /\ prop' = "none"
         /\ IF prop = "ro" THEN main' = copies[CHOOSE n \in Nodes : TRUE] /\ copies' = [n \in Nodes |-> <<>>] /\ cache' = cache
            ELSE main' = main /\ copies' = copies /\ cache' = IF KeepCache THEN cache ELSE [p \in Procs |-> <<>>]
         /\ UNCHANGED <<data, mir, got>>
Section(v, lo, hi) == [i \in lo..hi |-> v[i]]
Hit(p, lo, hi) == {k \in DOMAIN cache[p] : cache[p][k].lo <= lo /\ cache[p][k].hi >= hi}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
Get(p, lo, hi) ==
  /\ Tick
  /\ LET have == Hit(p, lo, hi)
         v == CASE prop = "ro" -> Section(copies[NodeOf[p]], lo, hi)
                [] prop = "rc" /\ have # {} -> Section(cache[p][First(have)].v, lo, hi)
                [] OTHER -> Section(main, lo, hi)
     IN /\ got' = (v = Section(data, lo, hi))
        /\ cache' = IF prop = "rc" /\ have = {}
                    THEN [cache EXCEPT ![p] = SubSeq(<<[lo |-> lo, hi |-> hi, v |-> v]>> \o @, 1, IF Len(@) < MaxC THEN Len(@) + 1 ELSE MaxC)]
                    ELSE cache
  /\ UNCHANGED <<data, main, copies, prop, mir>>
PutM(n, i) == /\ Tick /\ mir[n][i] = 0 /\ mir' = [mir EXCEPT ![n][i] = n + 1]
              /\ UNCHANGED <<data, main, copies, prop, cache, got>>
\* every node divides its copy evenly among its processes, in their order
Size(n) == Cardinality({p \in Procs : NodeOf[p] = n})
Block(n, j) == {i \in Cells : ((i - 1) * Size(n)) \div N = j}
RECURSIVE SumN(_, _)
SumN(S, i) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN mir[n][i] + SumN(S \ {n}, i)
Nth(S, k) == CHOOSE i \in S : Cardinality({j \in S : j < i}) = k
RECURSIVE SumB(_, _, _)
SumB(S, j, k) == IF S = {} THEN 0
                 ELSE LET n == CHOOSE n \in S : TRUE
                      IN (IF Cardinality(Block(n, j)) > k THEN mir[n][Nth(Block(n, j), k)] ELSE 0) + SumB(S \ {n}, j, k)
Merge == /\ Tick
         /\ mir' = [n \in Nodes |-> [i \in Cells |->
              IF ~ GopMerge THEN SumN(Nodes, i)
              ELSE LET j == CHOOSE j \in 0..(Size(n) - 1) : i \in Block(n, j)
                   IN SumB(Nodes, j, Cardinality({x \in Block(n, j) : x < i}))]]
         /\ got' = \A n \in Nodes, i \in Cells : mir'[n][i] = SumN(Nodes, i)
         /\ UNCHANGED <<data, main, copies, prop, cache>>
Next == \/ \E i \in Cells, v \in Vals : Put(i, v)
        \/ SetRO \/ SetRC \/ Unset
        \/ \E p \in Procs, lo \in Cells, hi \in Cells : lo <= hi /\ Get(p, lo, hi)
        \/ (len < 3 /\ prop = "none" /\ \E n \in Nodes, i \in Cells : PutM(n, i))
        \/ (prop = "none" /\ Merge)
Spec == Init /\ [][Next]_vars

Invisible == got
\* nothing is lost: as long as the array has its own distribution it holds what was stored, and each node's copy does otherwise
Kept == IF prop = "ro" THEN \A n \in Nodes : copies[n] = data ELSE main = data
NothingCached == prop # "rc" => \A p \in Procs : cache[p] = <<>>
Nodes3 == <<0, 0, 1>>
Nodes4 == <<0, 0, 1, 1>>
=============================================================================
