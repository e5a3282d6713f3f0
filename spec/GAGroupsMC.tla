----------------------------- MODULE GAGroupsMC -----------------------------
(* The tables behind process groups: every group has a map from absolute     *)
(* rank to rank, its inverse, and a communicator, which the layer below      *)
(* makes from ranks of ITS default group.  Seen by one process; it creates   *)
(* groups from ranks of the default group, splits, duplicates, changes the   *)
(* default and destroys.  The maps and the communicator must always describe *)
(* the same members in the same order, whichever group was the default at    *)
(* each step.  DUP: duplicates translate by the parent's or the group's own  *)
(* map (as an earlier version of the code did); NEST: creation does not      *)
(* translate by the default group.                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS N, MaxGroups, DUP, NEST
Procs == 0..(N - 1)
Slots == 1..MaxGroups
VARIABLES tab,   \* slot -> [map, inv, comm, parent, def (what it must be)] or None
          cur    \* the default group: a slot, or 0 for the world
vars == <<tab, cur>>
None == [def |-> <<>>]
World == [i \in 1..N |-> i - 1]
Asc(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
Def(g) == IF g = 0 THEN World ELSE tab[g].def
Inv(g) == IF g = 0 THEN World ELSE tab[g].inv
Comm(g) == IF g = 0 THEN World ELSE tab[g].comm
Map(g) == IF g = 0 THEN [p \in Procs |-> p] ELSE tab[g].map
Live == {s \in Slots : tab[s] # None}
Free == CHOOSE s \in Slots : s \notin Live /\ \A t \in Slots \ Live : s <= t
MapOf(inv) == [p \in Procs |-> IF \E i \in 1..Len(inv) : inv[i] = p THEN (CHOOSE i \in 1..Len(inv) : inv[i] = p) - 1 ELSE -1]
Init == tab = [s \in Slots |-> None] /\ cur = 0
\* a group from ranks (ascending) of group d while d is the default
NewGroup(ranks, d, want) ==
  LET inv == [i \in 1..Len(ranks) |-> IF NEST THEN ranks[i] ELSE Inv(d)[ranks[i] + 1]]
      comm == [i \in 1..Len(ranks) |-> Comm(d)[ranks[i] + 1]]
  IN [map |-> MapOf(inv), inv |-> inv, comm |-> comm, parent |-> d, def |-> want]
CanMake == Cardinality(Live) < MaxGroups
Create == \E S \in SUBSET (0..(Len(Def(cur)) - 1)) \ {{}} :
            /\ CanMake
            /\ tab' = [tab EXCEPT ![Free] = NewGroup(Asc(S), cur, [i \in 1..Cardinality(S) |-> Def(cur)[Asc(S)[i] + 1]])]
            /\ UNCHANGED cur
\* the part with number b of a split of p into runs of z
Split == \E p \in Live \cup {0}, z \in 1..N :
           LET n == Len(Def(p)) IN
           \E b \in 0..((n - 1) \div z) :
             LET lo == b * z
                 hi == IF lo + z <= n THEN lo + z - 1 ELSE n - 1
             IN /\ CanMake /\ z <= n
                /\ tab' = [tab EXCEPT ![Free] = NewGroup([i \in 1..(hi - lo + 1) |-> lo + i - 1], p, SubSeq(Def(p), lo + 1, hi + 1))]
                /\ UNCHANGED cur
\* ranks given to the layer below, which counts them in the default group (DUP), or absolute ones in the world
DupOf(g) ==
  LET inv == Inv(g)
      n == Len(inv)
      old == IF g = 0 THEN World
             ELSE IF tab[g].parent # 0 /\ tab[g].parent \in Live THEN [i \in 1..n |-> Map(tab[g].parent)[inv[i]]]
             ELSE [i \in 1..n |-> Map(g)[inv[i]]]
      comm == IF DUP THEN [i \in 1..n |-> IF old[i] + 1 \in DOMAIN Comm(cur) THEN Comm(cur)[old[i] + 1] ELSE -1]
              ELSE [i \in 1..n |-> World[inv[i] + 1]]
  IN [map |-> Map(g), inv |-> inv, comm |-> comm, parent |-> IF g = 0 THEN 0 ELSE tab[g].parent, def |-> Def(g)]
Dup == \E g \in Live \cup {0} : CanMake /\ tab' = [tab EXCEPT ![Free] = DupOf(g)] /\ UNCHANGED cur
SetDefault == \E g \in Live \cup {0} : cur' = g /\ UNCHANGED tab
Destroy == \E g \in Live \ {cur} : tab' = [tab EXCEPT ![g] = None] /\ UNCHANGED cur
Next == Create \/ Split \/ Dup \/ SetDefault \/ Destroy
Spec == Init /\ [][Next]_vars
\* the queries and the communication follow the definition
Agrees == \A g \in Live : /\ tab[g].inv = tab[g].def /\ tab[g].comm = tab[g].def
                          /\ \A p \in Procs : IF \E i \in 1..Len(tab[g].def) : tab[g].def[i] = p
                                              THEN tab[g].inv[tab[g].map[p] + 1] = p ELSE tab[g].map[p] = -1
=============================================================================
