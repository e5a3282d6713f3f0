------------------------------- MODULE GAMAMC -------------------------------
(* The allocator's method, in units of its alignment: a first-fit free list in *)
(* the heap region (split when the rest can hold a block, coalesced when       *)
(* freed), heap pointer and stack pointer growing towards each other.  Shown:  *)
(* blocks never overlap, the free list is ordered and coalesced, nothing of    *)
(* the heap region is lost, and a request fails only if no interval holds it.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Size,      \* units in the arena
          MinBlock,  \* smallest remainder that becomes a block
          MaxReq,    \* largest request
          MaxLive,   \* blocks alive at once
          Coalesce,  \* FALSE: the broken variant that never merges
          Trim       \* FALSE: the broken variant that forgets to move the heap pointer back
VARIABLES used,  \* live heap blocks: {<<start, length, asked>>}
          fl,    \* free blocks of the heap region: {<<start, length>>}
          hp, sp, \* heap and stack pointers
          stk,   \* lengths of the stack blocks
          failed \* what the last request asked for when it failed, 0 otherwise
vars == <<used, fl, hp, sp, stk, failed>>
Init == used = {} /\ fl = {} /\ hp = 0 /\ sp = Size /\ stk = <<>> /\ failed = 0
Live == Cardinality(used) + Len(stk)
First(S) == CHOOSE x \in S : \A y \in S : x[1] <= y[1]
Alloc(n) ==
  LET ok == {f \in fl : f[2] >= n} IN
  IF ok # {}
  THEN LET f == First(ok)  rest == f[2] - n IN
       /\ failed' = 0 /\ UNCHANGED <<hp, sp, stk>>
       /\ IF rest >= MinBlock THEN /\ used' = used \cup {<<f[1], n, n>>}
                                   /\ fl' = (fl \ {f}) \cup {<<f[1] + n, rest>>}
          ELSE used' = used \cup {<<f[1], f[2], n>>} /\ fl' = fl \ {f}
  ELSE IF hp + n <= sp THEN used' = used \cup {<<hp, n, n>>} /\ hp' = hp + n /\ failed' = 0 /\ UNCHANGED <<fl, sp, stk>>
  ELSE failed' = n /\ UNCHANGED <<used, fl, hp, sp, stk>>
Merge(S) == \* maximal runs of adjacent free blocks
  IF ~Coalesce THEN S ELSE
  LET Cells == UNION {{c : c \in f[1]..(f[1] + f[2] - 1)} : f \in S}
      Begin == {c \in Cells : c - 1 \notin Cells}
      End(c) == CHOOSE e \in c..Size : e \notin Cells /\ \A x \in c..(e - 1) : x \in Cells
  IN {<<c, End(c) - c>> : c \in Begin}
Reclaim(u, x) == \* block x = <<start, length>> is not used any more, u are
  IF u = {} THEN hp' = 0 /\ fl' = {}
  ELSE LET last == CHOOSE b \in u : \A c \in u : c[1] <= b[1] IN
       /\ hp' = (IF Trim THEN last[1] + last[2] ELSE hp)
       /\ fl' = Merge({f \in fl \cup {x} : ~Trim \/ f[1] < last[1]})
Release(b) == used' = used \ {b} /\ Reclaim(used', <<b[1], b[2]>>) /\ failed' = 0 /\ UNCHANGED <<sp, stk>>
Piece(b, k) == \* keep b[3] - k
  LET n == b[3] - k  rest == b[2] - n IN
  /\ failed' = 0 /\ UNCHANGED <<sp, stk>>
  /\ IF rest >= MinBlock
     THEN used' = (used \ {b}) \cup {<<b[1], n, n>>} /\ Reclaim(used', <<b[1] + n, rest>>)
     ELSE used' = (used \ {b}) \cup {<<b[1], b[2], n>>} /\ UNCHANGED <<fl, hp>>
Push(n) == IF sp - hp >= n THEN sp' = sp - n /\ stk' = Append(stk, n) /\ failed' = 0 /\ UNCHANGED <<used, fl, hp>>
           ELSE failed' = n /\ UNCHANGED <<used, fl, hp, sp, stk>>
Pop == stk # <<>> /\ sp' = sp + stk[Len(stk)] /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ failed' = 0 /\ UNCHANGED <<used, fl, hp>>
Next == \/ Live < MaxLive /\ \E n \in MinBlock..MaxReq : Alloc(n) \/ Push(n)
        \/ \E b \in used : Release(b) \/ \E k \in 1..(b[3] - MinBlock) : Piece(b, k)
        \/ Pop
Spec == Init /\ [][Next]_vars
Cells(x) == {c : c \in x[1]..(x[1] + x[2] - 1)}
Stack == {c : c \in sp..(Size - 1)}
Disjoint == /\ \A a, b \in used \cup fl : a # b => Cells(a) \cap Cells(b) = {}
            /\ \A a \in used : Cells(a) \cap Stack = {}
            /\ \A a \in used \cup fl : a[1] + a[2] <= hp
            /\ hp <= sp /\ \A b \in used : b[3] <= b[2]
Whole == {c : c \in 0..(hp - 1)} = UNION {Cells(x) : x \in used \cup fl}   \* nothing is lost
Merged == \A a, b \in fl : a[1] + a[2] # b[1]
Tight == used # {} => \E b \in used : b[1] + b[2] = hp                     \* the heap region ends with a block
(* as a user sees it: a request fails only when no interval between blocks can hold it *)
FailOnlyFull ==
  failed > 0 =>
    LET starts == {0} \cup {b[1] + b[2] : b \in used}
        Next1(s) == CHOOSE e \in s..sp : (e = sp \/ \E b \in used : b[1] = e) /\ \A x \in s..(e - 1) : ~\E b \in used : b[1] = x
    IN \/ sp - hp < failed
       \/ \A s \in starts : Next1(s) - s < failed
NoGap == failed > 0 => (sp - hp < failed)
=============================================================================
