------------------------------- MODULE GALifeMC ------------------------------
(* The tables behind GALife: every process keeps a table of arrays (slots    *)
(* with a "handle taken" and an "active" flag), and the memory left.         *)
(* Collective operations are taken by the members of a group at different    *)
(* times; creation deducts first, then the members agree whether everybody   *)
(* has enough memory, then all go on or all undo.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NProc, Slots, MaxOps, Sizes, REUSE, UNDO, LIMIT
P == 1..NProc
Limits == {-1, 3, 4}
S == 1..Slots
VARIABLES log, pc, vote, tab, tot, lim, res
vars == <<log, pc, vote, tab, tot, lim, res>>
Free == [id |-> 0, act |-> FALSE, sz |-> 0]
Init == /\ log = <<>> /\ pc = [p \in P |-> 1] /\ vote = [p \in P |-> 0]
        /\ tab = [p \in P |-> [s \in S |-> Free]] /\ tot = [p \in P |-> 0] /\ lim = [p \in P |-> -1]
        /\ res = [p \in P |-> <<>>]
\* the program: a history of collective operations that is legal (arrays that exist)
Members(k) == log[k].g
Alive(k) == log[k].k = "create" /\ ~\E j \in (k+1)..Len(log) : log[j].k = "destroy" /\ log[j].of = k
LastOf(k) == LET J == {j \in k..Len(log) : j = k \/ (log[j].k \in {"dealloc", "alloc"} /\ log[j].of = k)}
             IN log[CHOOSE j \in J : \A i \in J : i <= j].k
Done(k) == \A p \in Members(k) : pc[p] > k
OKd(k) == \A p \in Members(k) : res[p][k] = 1
Groups == {g \in SUBSET P : g # {}}
Program ==
  /\ Len(log) < MaxOps
  /\ \/ \E g \in Groups, z \in [P -> Sizes] : log' = Append(log, [k |-> "create", g |-> g, sz |-> z, of |-> 0])
     \/ \E x \in Limits : log' = Append(log, [k |-> "limit", g |-> P, sz |-> [p \in P |-> x], of |-> 0])
     \/ \E k \in 1..Len(log) :
          /\ Alive(k) /\ Done(k) /\ OKd(k)
          /\ \E o \in {"destroy", "dealloc", "alloc"} :
               /\ o = "dealloc" => LastOf(k) \in {"create", "alloc"}
               /\ o = "alloc" => LastOf(k) = "dealloc"
               /\ o = "destroy" => LastOf(k) \in {"create", "alloc"}
               /\ log' = Append(log, [k |-> o, g |-> log[k].g, sz |-> log[k].sz, of |-> k])
  /\ UNCHANGED <<pc, vote, tab, tot, lim, res>>
Slot(p) == LET F == {s \in S : IF REUSE THEN ~tab[p][s].act ELSE tab[p][s].id = 0}
           IN IF F = {} THEN 0 ELSE CHOOSE s \in F : \A t \in F : s <= t
Of(p, k) == CHOOSE s \in S : tab[p][s].id = k
Has(p, k) == \E s \in S : tab[p][s].id = k
Ret(p, v) == res' = [res EXCEPT ![p] = [j \in DOMAIN @ \cup {pc[p]} |-> IF j = pc[p] THEN v ELSE @[j]]]
Op(p) == log[pc[p]]
CanGo(p) == pc[p] <= Len(log)
Skip(p) == /\ CanGo(p) /\ p \notin Op(p).g
           /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<log, vote, tab, tot, lim, res>>
\* take a slot and the memory, say whether it is enough
Begin(p) == /\ CanGo(p) /\ p \in Op(p).g /\ Op(p).k \in {"create", "alloc"} /\ vote[p] = 0
            /\ LET o == Op(p)
                   s == IF o.k = "create" THEN Slot(p) ELSE Of(p, o.of)
                   t == IF lim[p] < 0 THEN tot[p] ELSE tot[p] - o.sz[p]
               IN /\ s # 0
                  /\ tab' = [tab EXCEPT ![p][s] = [id |-> IF o.k = "create" THEN pc[p] ELSE o.of, act |-> TRUE, sz |-> o.sz[p]]]
                  /\ tot' = [tot EXCEPT ![p] = t]
                  /\ vote' = [vote EXCEPT ![p] = IF lim[p] >= 0 /\ t < 0 THEN 2 ELSE 1]
            /\ UNCHANGED <<log, pc, lim, res>>
\* all members have said it (a member past the operation has its answer)
Finish(p) ==
  /\ CanGo(p) /\ vote[p] > 0
  /\ \A q \in Op(p).g : pc[q] > pc[p] \/ (pc[q] = pc[p] /\ vote[q] > 0)
  /\ LET o == Op(p)
         said == \E q \in Op(p).g : (pc[q] = pc[p] /\ vote[q] = 2) \/ (pc[q] > pc[p] /\ res[q][pc[p]] = 0)
         id == IF o.k = "create" THEN pc[p] ELSE o.of
         s == Of(p, id)
     IN IF said
        THEN \* undo
          /\ Ret(p, 0)
          /\ tab' = [tab EXCEPT ![p][s] = Free]
          /\ tot' = IF lim[p] >= 0 /\ (~UNDO \/ vote[p] = 2) THEN [tot EXCEPT ![p] = @ + o.sz[p]] ELSE tot
        ELSE Ret(p, 1) /\ UNCHANGED <<tab, tot>>
  /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ vote' = [vote EXCEPT ![p] = 0]
  /\ UNCHANGED <<log, lim>>
Gone(p) ==
  /\ CanGo(p) /\ p \in Op(p).g /\ Op(p).k \in {"destroy", "dealloc"}
  /\ LET o == Op(p)
         s == Of(p, o.of)
     IN /\ tab' = [tab EXCEPT ![p][s] = IF o.k = "destroy" THEN Free ELSE [id |-> o.of, act |-> FALSE, sz |-> 0]]
        /\ tot' = IF lim[p] >= 0 THEN [tot EXCEPT ![p] = @ + tab[p][s].sz] ELSE tot
  /\ Ret(p, 1)
  /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<log, vote, lim>>
Used(p) == LET RECURSIVE f(_) f(s) == IF s = 0 THEN 0 ELSE tab[p][s].sz + f(s-1) IN f(Slots)
SetLimit(p) ==
  /\ CanGo(p) /\ Op(p).k = "limit"
  /\ LET x == Op(p).sz[p]
     IN IF lim[p] >= 0 /\ x >= 0
        THEN tot' = [tot EXCEPT ![p] = @ + x - lim[p]] /\ lim' = IF LIMIT THEN lim ELSE [lim EXCEPT ![p] = x]
        ELSE tot' = [tot EXCEPT ![p] = x] /\ lim' = [lim EXCEPT ![p] = x]
  /\ Ret(p, 1)
  /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<log, vote, tab>>
Next == Program \/ \E p \in P : Skip(p) \/ Begin(p) \/ Finish(p) \/ Gone(p) \/ SetLimit(p)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* what is left, by the history of process p alone: the last limit, less the memory used before the
\* limit existed, less what is used now
Past(p) == {k \in 1..(pc[p]-1) : log[k].k = "limit"}
\* replay of the accounting that GALife prescribes
RECURSIVE Acct(_, _, _, _)
Acct(p, k, a, l) ==
  IF k >= pc[p] THEN a
  ELSE LET o == log[k]
           n == IF p \notin o.g THEN 0
                ELSE IF o.k \in {"create", "alloc"} /\ res[p][k] = 1 THEN o.sz[p]
                ELSE IF o.k \in {"destroy", "dealloc"} THEN -o.sz[p] ELSE 0
       IN IF o.k = "limit" THEN Acct(p, k+1, IF l >= 0 /\ o.sz[p] >= 0 THEN a + o.sz[p] - l ELSE o.sz[p], o.sz[p])
          ELSE Acct(p, k+1, IF l >= 0 THEN a - n ELSE a, l)
Accounting == \A p \in P : vote[p] = 0 => tot[p] = Acct(p, 1, 0, -1) \/ lim[p] < 0
\* every array that exists on p has exactly one slot
ArraysOf(p) == {k \in 1..(pc[p]-1) : /\ log[k].k = "create" /\ p \in log[k].g /\ res[p][k] = 1
                 /\ ~\E j \in (k+1)..(pc[p]-1) : /\ log[j].of = k
                                                 /\ (log[j].k = "destroy" \/ (log[j].k = "alloc" /\ res[p][j] = 0))}
Handles == \A p \in P : /\ \A k \in ArraysOf(p) : Cardinality({s \in S : tab[p][s].id = k}) = 1
                        /\ vote[p] = 0 => \A s \in S : tab[p][s].id # 0 => tab[p][s].id \in ArraysOf(p)
\* all members get the same answer
Agree == \A p, q \in P : \A k \in DOMAIN res[p] \cap DOMAIN res[q] : log[k].k # "limit" => res[p][k] = res[q][k]
\* nobody gets an array beyond its limit
Within == \A p \in P : vote[p] = 0 /\ lim[p] >= 0 /\ (\A k \in Past(p) : log[k].sz[p] = lim[p]) => tot[p] >= 0
=============================================================================
