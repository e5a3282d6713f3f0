------------------------------- MODULE GALife -------------------------------
(* Life cycle of arrays, as each process sees it: its handles, what the      *)
(* handles stand for, and the memory its arrays use.                         *)
(*                                                                           *)
(* State L: live (array -> what it is: name, type, dimensions, group, cyclic *)
(* distribution or not, "on" or "off" (deallocated), and for every member    *)
(* that has reported it its handle h and size sz) and avail (process ->      *)
(* memory left; a process is missing while there is no limit).               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

LInit == [live |-> <<>>, avail |-> <<>>, limit |-> <<>>]
Mine(L, r) == {b \in DOMAIN L.live : r \in DOMAIN L.live[b].h}
Used(L, r) == FoldLeft(LAMBDA x, b : x + L.live[b].sz[r], 0, SetToSeq(Mine(L, r)))
Put1(f, k, v) == (k :> v) @@ f
\* the answers that describe the array
Is(x, e) == /\ e.name = x.name /\ e.typ = x.typ /\ e.dims = x.dims /\ e.grp = x.grp
Avail(L, r, av) == IF r \in DOMAIN L.avail THEN av = L.avail[r] ELSE av = -1
Spent(L, r, n) == IF r \in DOMAIN L.avail THEN [L EXCEPT !.avail[r] = @ - n] ELSE L

\* a member reports a new array (created, or duplicated from another): e.nb is the size of the
\* blocks it owns; x: what the array must be
LNewOK(L, e, x) ==
  LET n == e.m - Used(L, e.r)
  IN /\ e.ok = 1 /\ e.vh = 1
     /\ \A b \in Mine(L, e.r) : b # e.a /\ L.live[b].h[e.r] # e.h
     /\ IF x.cyc = 1 THEN n >= e.nb ELSE n = e.nb
     /\ Avail(Spent(L, e.r, n), e.r, e.av)
     /\ e.av >= -1
     /\ Is(x, e)
LNew(L, e, x) ==
  LET n == e.m - Used(L, e.r)
      y == IF e.a \in DOMAIN L.live THEN L.live[e.a] ELSE [h |-> <<>>, sz |-> <<>>, st |-> "on"] @@ x
      K == Spent(L, e.r, n)
  IN [K EXCEPT !.live = Put1(@, e.a, [y EXCEPT !.h = Put1(@, e.r, e.h), !.sz = Put1(@, e.r, n)])]
\* a creation beyond the limit of some member: nothing is left of it anywhere
LFailOK(L, e) == /\ e.ok = 0 /\ e.m = Used(L, e.r) /\ Avail(L, e.r, e.av)
\* memory given back (deallocated) or gone (destroyed)
LOffOK(L, e) == LET n == L.live[e.a].sz[e.r]
                IN /\ e.ok = 1 /\ e.m = Used(L, e.r) - n /\ Avail(Spent(L, e.r, -n), e.r, e.av)
                   /\ e.vh = 0
LOff(L, e) == LET n == L.live[e.a].sz[e.r]
                  K == Spent(L, e.r, -n)
              IN [K EXCEPT !.live[e.a].sz[e.r] = 0, !.live[e.a].st = "off"]
LGone(L, e) ==
  LET n == L.live[e.a].sz[e.r]
      K == Spent(L, e.r, -n)
      y == [K.live[e.a] EXCEPT !.h = [p \in DOMAIN @ \ {e.r} |-> @[p]], !.sz = [p \in DOMAIN @ \ {e.r} |-> @[p]]]
  IN IF DOMAIN y.h = {} THEN [K EXCEPT !.live = [b \in DOMAIN @ \ {e.a} |-> @[b]]]
     ELSE [K EXCEPT !.live[e.a] = y]
\* allocated again
LOnOK(L, e) == LET n == e.m - Used(L, e.r)
               IN /\ e.ok = 1 /\ e.vh = 1 /\ L.live[e.a].sz[e.r] = 0
                  /\ IF L.live[e.a].cyc = 1 THEN n >= e.nb ELSE n = e.nb
                  /\ Avail(Spent(L, e.r, n), e.r, e.av)
LOn(L, e) == LET n == e.m - Used(L, e.r)
                 K == Spent(L, e.r, n)
             IN [K EXCEPT !.live[e.a].sz[e.r] = n, !.live[e.a].st = "on"]
\* a query at any time
LAskOK(L, e) == LET x == L.live[e.a]
                IN /\ e.h = x.h[e.r] /\ e.vh = (IF x.st = "on" THEN 1 ELSE 0)
                   /\ Is(x, e)
                   /\ e.m = Used(L, e.r) /\ Avail(L, e.r, e.av)
\* an old handle is valid only if another array has it now
LOldOK(L, e) == e.vh = IF \E b \in Mine(L, e.r) : L.live[b].h[e.r] = e.h /\ L.live[b].st = "on" THEN 1 ELSE 0
\* the limit: new, changed by a difference, or removed
LLimitOK(L, e) == e.av = IF e.x < 0 THEN -1 ELSE IF e.r \in DOMAIN L.avail THEN L.avail[e.r] + e.x - L.limit[e.r] ELSE e.x
LLimit(L, e) == IF e.x < 0 THEN [L EXCEPT !.avail = [p \in DOMAIN @ \ {e.r} |-> @[p]], !.limit = [p \in DOMAIN @ \ {e.r} |-> @[p]]]
                ELSE [L EXCEPT !.avail = Put1(@, e.r, e.av), !.limit = Put1(@, e.r, e.x)]
\* the memory of a process's blocks: e.lo and e.hi are ranks of the first and last addresses of the listed
\* arrays among all these addresses
LApartOK(e) == \A i, j \in 1..Len(e.lo) : (i < j => (e.hi[i] < e.lo[j] \/ e.hi[j] < e.lo[i])) /\ e.lo[i] <= e.hi[i]
=============================================================================
