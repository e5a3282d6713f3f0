------------------------------ MODULE CollectMC ------------------------------
(* Reductions and broadcasts by messages along a tree, in communicators.     *)
(* Every process executes, of a program of collective operations on          *)
(* overlapping groups, those of its groups, in order.  A message is matched  *)
(* by communicator and kind, from any source; a member leaves a reduction    *)
(* with the result.  Contributions are <<process, operation>>, the result    *)
(* the set of them, so a mix-up is visible.                                  *)
(* TAG: all groups share one communicator.  ORDER: a member leaves a         *)
(* reduction after sending its part, and takes the result when it comes.     *)
(* ROOT: the root of a broadcast is used as an absolute rank.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Length, TAG, ORDER, ROOT
P == 1..N
\* the world and two overlapping groups; members by rank
Groups == IF N = 2 THEN <<<<1, 2>>, <<2, 1>>>> ELSE <<[i \in P |-> i], <<2, 3>>, <<1, 3>>>>
Ops == {[g |-> g, k |-> "gop", root |-> 1] : g \in DOMAIN Groups}
         \cup {[g |-> g, k |-> "bcast", root |-> Len(Groups[g])] : g \in DOMAIN Groups}
VARIABLES prog, pc, ph, acc, left, net, res
vars == <<prog, pc, ph, acc, left, net, res>>
Mem(i) == {Groups[prog[i].g][j] : j \in DOMAIN Groups[prog[i].g]}
Rank(i, p) == CHOOSE j \in DOMAIN Groups[prog[i].g] : Groups[prog[i].g][j] = p
Size(i) == Len(Groups[prog[i].g])
\* a binary tree over the ranks
Kids(i, p) == {Groups[prog[i].g][j] : j \in {2 * Rank(i, p), 2 * Rank(i, p) + 1} \cap DOMAIN Groups[prog[i].g]}
Up(i, p) == Groups[prog[i].g][Rank(i, p) \div 2]
Init == /\ prog \in [1..Length -> Ops]
        /\ pc = [p \in P |-> 1] /\ ph = [p \in P |-> "start"] /\ acc = [p \in P |-> {}] /\ left = [p \in P |-> 0]
        /\ net = [p \in P |-> <<>>] /\ res = [p \in P |-> <<>>]
Msg(i, k, x) == [c |-> IF TAG THEN 0 ELSE prog[i].g, k |-> k, x |-> x]
RECURSIVE SendAll(_, _, _)
SendAll(n, D, m) == IF D = {} THEN n ELSE LET d == CHOOSE d \in D : TRUE IN SendAll([n EXCEPT ![d] = Append(@, m)], D \ {d}, m)
First(p, i, k) == LET J == {j \in DOMAIN net[p] : net[p][j].c = (IF TAG THEN 0 ELSE prog[i].g) /\ net[p][j].k = k}
                  IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A x \in J : j <= x
Drop(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Leave(p, x) == /\ res' = [res EXCEPT ![p] = Append(@, <<pc[p], x>>)]
               /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ ph' = [ph EXCEPT ![p] = "start"]
Skip(p) == /\ pc[p] <= Length /\ p \notin Mem(pc[p])
           /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<prog, ph, acc, left, net, res>>
Begin(p) ==
  /\ pc[p] <= Length /\ p \in Mem(pc[p]) /\ ph[p] = "start"
  /\ LET i == pc[p]
     IN IF prog[i].k = "gop"
        THEN /\ acc' = [acc EXCEPT ![p] = {<<p, i>>}] /\ left' = [left EXCEPT ![p] = Cardinality(Kids(i, p))]
             /\ ph' = [ph EXCEPT ![p] = "collect"] /\ UNCHANGED <<net, res, pc>>
        ELSE LET r == IF ROOT THEN prog[i].root ELSE Groups[prog[i].g][prog[i].root]
             IN IF p = r THEN /\ net' = SendAll(net, Mem(i) \ {p}, Msg(i, "down", {<<p, i>>})) /\ Leave(p, {<<p, i>>})
                              /\ UNCHANGED <<acc, left>>
                ELSE ph' = [ph EXCEPT ![p] = "result"] /\ UNCHANGED <<net, acc, left, res, pc>>
  /\ UNCHANGED prog
Collect(p) ==
  /\ ph[p] = "collect" /\ left[p] > 0
  /\ LET j == First(p, pc[p], "up")
     IN /\ j # 0
        /\ acc' = [acc EXCEPT ![p] = @ \cup net[p][j].x]
        /\ net' = [net EXCEPT ![p] = Drop(@, j)]
  /\ left' = [left EXCEPT ![p] = @ - 1]
  /\ UNCHANGED <<prog, pc, ph, res>>
Pass(p) ==
  /\ ph[p] = "collect" /\ left[p] = 0
  /\ LET i == pc[p]
     IN IF Rank(i, p) = 1
        THEN net' = SendAll(net, Mem(i) \ {p}, Msg(i, "down", acc[p])) /\ Leave(p, acc[p])
        ELSE /\ net' = [net EXCEPT ![Up(i, p)] = Append(@, Msg(i, "up", acc[p]))]
             /\ IF ORDER THEN /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ ph' = [ph EXCEPT ![p] = "start"]
                              /\ res' = res
                ELSE ph' = [ph EXCEPT ![p] = "result"] /\ UNCHANGED <<pc, res>>
  /\ UNCHANGED <<prog, acc, left>>
Result(p) ==
  /\ ph[p] = "result"
  /\ LET j == First(p, pc[p], "down")
     IN j # 0 /\ net' = [net EXCEPT ![p] = Drop(@, j)] /\ Leave(p, net[p][j].x)
  /\ UNCHANGED <<prog, acc, left>>
Done == (\A p \in P : pc[p] > Length) /\ UNCHANGED vars
Next == Done \/ \E p \in P : Skip(p) \/ Begin(p) \/ Collect(p) \/ Pass(p) \/ Result(p)
Spec == Init /\ [][Next]_vars
Want(i) == IF prog[i].k = "gop" THEN {<<p, i>> : p \in Mem(i)} ELSE {<<Groups[prog[i].g][prog[i].root], i>>}
Defined == \A p \in P : \A j \in DOMAIN res[p] : res[p][j][2] = Want(res[p][j][1])
\* partial sums never hold anything else either
Sane == \A p \in P : ph[p] = "collect" => acc[p] \subseteq {<<q, pc[p]>> : q \in Mem(pc[p])}
=============================================================================
