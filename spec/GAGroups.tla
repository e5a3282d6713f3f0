------------------------------ MODULE GAGroups ------------------------------
(* Process groups and collective communication.                              *)
(*                                                                           *)
(* A group is the sequence of its members' absolute ranks; every process has *)
(* a table of the groups it knows (by a number of the script) with their     *)
(* handles, and a default group (-1: the world).                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

GInit == [np |-> 0, tab |-> <<>>, h |-> <<>>, def |-> <<>>]
World(G) == [i \in 1..G.np |-> i - 1]
Default(G, r) == IF r \in DOMAIN G.def THEN G.def[r] ELSE -1
Group(G, r, g) == IF g = -1 THEN World(G) ELSE G.tab[<<r, g>>]
Asc(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
\* ---- what a new group must be: how it is made decides its members and their order
\*      list    ranks in the default group; the order is by rank
\*      split   runs of ceil(size / k) consecutive members of the parent, the last may be shorter
\*      irreg   the members of the parent with the same colour
\*      dup     the same;  self    the process alone
Made(G, e) ==
  LET r == e.r
      d == Group(G, r, Default(G, r))
  IN CASE e.how = "list" -> LET R == Asc(Range(e.list)) IN [i \in 1..Len(R) |-> d[R[i] + 1]]
       [] e.how = "split" -> LET m == Group(G, r, e.parent)
                                 n == Len(m)
                                 z == (n + e.k - 1) \div e.k
                                 b == ((PosIn(m, r) - 1) \div z) * z
                             IN SubSeq(m, b + 1, IF b + z < n THEN b + z ELSE n)
       [] e.how = "irreg" -> LET m == Group(G, r, e.parent)
                                 c == e.colors[PosIn(m, r)]
                             IN SelectSeq(m, LAMBDA x : e.colors[PosIn(m, x)] = c)
       [] e.how = "dup" -> Group(G, r, e.parent)
       [] e.how = "self" -> <<r>>
Num(e) == IF "nums" \in DOMAIN e THEN e.nums[e.r + 1] ELSE e.g
\* queries about a group: size, own rank, absolute rank of every member
AskOK(m, e) == /\ e.n = Len(m) /\ e.me = PosIn(m, e.r) - 1 /\ e.abs = m
HandlesOf(G, r) == {x \in DOMAIN G.h : x[1] = r}
GroupOK(G, e) ==
  CASE e.op = "gworld" -> TRUE
    [] e.op = "gmake" -> /\ AskOK(Made(G, e), e)
                         /\ \A x \in HandlesOf(G, e.r) : G.h[x] # e.h
                         \* (no more handles than groups that exist are in use; some are of groups of other processes)
                         /\ e.h <= e.bound
    [] e.op = "gask" -> AskOK(Group(G, e.r, e.g), e) /\ (e.g # -1 => e.h = G.h[<<e.r, e.g>>])
    [] e.op = "gdef" -> AskOK(Group(G, e.r, e.g), e)
    [] e.op = "gfree" -> e.ok = 1
GroupNext(G, e) ==
  CASE e.op = "gworld" -> [GInit EXCEPT !.np = e.np]
    [] e.op = "gmake" -> [G EXCEPT !.tab = (<<e.r, Num(e)>> :> Made(G, e)) @@ @, !.h = (<<e.r, Num(e)>> :> e.h) @@ @]
    [] e.op = "gdef" -> [G EXCEPT !.def = (e.r :> e.g) @@ @]
    [] e.op = "gfree" -> [G EXCEPT !.tab = [x \in DOMAIN @ \ {<<e.r, e.g>>} |-> @[x]],
                                   !.h = [x \in DOMAIN @ \ {<<e.r, e.g>>} |-> @[x]]]
    [] OTHER -> G
-----------------------------------------------------------------------------
(* Reductions: x is the sequence of the members' vectors.                    *)
Abs(a) == IF a < 0 THEN -a ELSE a
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
RECURSIVE BitOr(_, _), BitAnd(_, _)
BitOr(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
               ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + 2 * BitOr(a \div 2, b \div 2)
BitAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0) + 2 * BitAnd(a \div 2, b \div 2)
Bool(b) == IF b THEN 1 ELSE 0
Fold1(o, a, b) ==
  CASE o = "+" -> a + b [] o = "*" -> a * b
    [] o = "max" -> MaxOf(a, b) [] o = "min" -> MinOf(a, b)
    [] o = "absmax" -> MaxOf(Abs(a), Abs(b)) [] o = "absmin" -> MinOf(Abs(a), Abs(b))
    [] o \in {"or", "|", "bor"} -> BitOr(a, b) [] o \in {"&", "band"} -> BitAnd(a, b)
    [] o \in {"&&", "land"} -> Bool(a # 0 /\ b # 0) [] o \in {"||", "lor"} -> Bool(a # 0 \/ b # 0)
\* (a reduction over one member gives its own value)
First(o, a) == CASE o \in {"absmax", "absmin"} -> Abs(a) [] o \in {"&&", "land", "||", "lor"} -> a [] OTHER -> a
Reduce(o, c) == FoldLeft(LAMBDA a, b : Fold1(o, a, b), First(o, c[1]), Tail(c))
\* e.x: the vectors of the members one after the other, e.k components each
Column(e, j) == [i \in 1..(Len(e.x) \div e.k) |-> e.x[(i - 1) * e.k + j]]
Reduced(e) == [j \in 1..e.k |-> Reduce(e.o, Column(e, j))]
CollOK(e) == CASE e.op = "gop" -> e.out = Reduced(e) /\ e.pad = 0
               [] e.op = "bcast" -> e.out = e.x /\ e.pad = 0
=============================================================================
