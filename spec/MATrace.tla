------------------------------ MODULE MATrace ------------------------------
(* Checks a recorded history of the memory allocator.  Every line carries the *)
(* handles whose contents changed and whether bytes outside the arena did     *)
(* (dam); nothing but the operation itself may change anything.               *)
EXTENDS GAMA, SequencesExt, Json, IOUtils, TLC
VARIABLES ar,   \* the arena: size, nominal sizes, table of type sizes and overheads, alignment
          blk,  \* handle -> block
          stk,  \* stack blocks, last pushed at the end
          l, nx, bad
vars == <<ar, blk, stk, l, nx, bad>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == ar = <<>> /\ blk = <<>> /\ stk = <<>> /\ l = 1 /\ nx = 0 /\ bad = <<>>
Live == {blk[h] : h \in DOMAIN blk}
Kinds(k) == {b \in Live : b.kind = k}
Without(S) == [h \in DOMAIN blk \ S |-> blk[h]]
Sz(t) == ar.sz[t + 1]
Ov(t) == ar.ov[t + 1]
Free == UNCHANGED <<nx, bad>> /\ l' = l + 1

Case(e) == /\ e.op = "case" /\ ar' = <<>> /\ blk' = <<>> /\ stk' = <<>> /\ nx' = e.nx /\ l' = l + 1 /\ UNCHANGED bad
Start(e) == /\ e.op = "minit" /\ e.res = 1 /\ e.size >= (e.st + e.hp) * e.sz[e.t + 1]
            /\ ar' = [size |-> e.size, sz |-> e.sz, ov |-> e.ov, base |-> e.base, na |-> 0, maxna |-> 0,
                      t |-> e.t, st |-> e.st, hp |-> e.hp, part |-> e.hp * e.sz[e.t + 1]]
            /\ blk' = <<>> /\ stk' = <<>> /\ Free
(* ---- requests ---- *)
Fits(e) ==
  LET need == IF e.n > ar.size THEN ar.size + 1 ELSE e.n * Sz(e.t) + Slack(Ov(e.t), ar.maxna)
  IN IF e.kind = "heap" THEN \E g \in HeapGaps(Live, ar.size) : g >= need
     ELSE StackGap(Live, ar.size) >= need
(* the amount the allocator reported before this request, by inquiry q *)
Promised(e) ==
  /\ e.q >= 0 /\ e.n > 0
  /\ CASE e.q \in {0, 5, 6} -> e.kind = "stack" \/ e.q = 0
     [] e.q \in {2, 3} -> e.kind = "heap"
     [] e.q = 1 -> e.kind = "heap" /\ Least(Starts(Kinds("stack")), ar.size) - Slack(Ov(e.t), ar.maxna) >= ar.part + 512
     [] e.q = 4 -> e.kind = "stack" /\ Most(Ends(Kinds("heap")), 0) + Slack(Ov(e.t), ar.maxna) <= ar.part
(* an empty arena holds what it was made for *)
Nominal(e) == /\ Live = {} /\ ar.na = 0 /\ e.t = ar.t /\ e.n <= (IF e.kind = "heap" THEN ar.hp ELSE ar.st)
(* the alignment that was asked for is possible for the datatype *)
Aligned(e) == e.tmod = 0 /\ (ar.base[e.t + 1] % (IF Sz(e.t) < Pow2(ar.na) THEN Sz(e.t) ELSE Pow2(ar.na)) = 0 => e.amod = 0)
Valid(e) == e.t \in 0..16 /\ e.n >= 0 /\ e.huge = 0
New(e) == [kind |-> e.kind, t |-> e.t, n |-> e.n, lo |-> e.off, hi |-> e.off + e.n * Sz(e.t)]
Alloc(e) ==
  /\ e.op = "malloc" /\ e.dam = <<>>
  /\ IF e.res = 0 THEN /\ (Valid(e) => (~Fits(e) /\ ~Promised(e) /\ ~Nominal(e)))
                       /\ UNCHANGED <<ar, blk, stk>>
     ELSE /\ Valid(e) /\ e.n <= ar.size /\ e.h \notin DOMAIN blk
          /\ e.diff = 0 /\ Aligned(e)
          /\ e.off >= 0 /\ New(e).hi <= ar.size
          /\ \A b \in Live : ~Overlap(b, New(e))
          /\ (e.kind = "stack" => \A b \in Kinds("stack") : New(e).hi <= b.lo)
          /\ blk' = [h \in DOMAIN blk \cup {e.h} |-> IF h = e.h THEN New(e) ELSE blk[h]]
          /\ stk' = IF e.kind = "stack" THEN Append(stk, e.h) ELSE stk
          /\ UNCHANGED ar
  /\ Free
(* ---- releases ---- *)
IsHeap(h) == h \in DOMAIN blk /\ blk[h].kind = "heap"
IsStack(h) == h \in DOMAIN blk /\ blk[h].kind = "stack"
Release(e) ==
  /\ e.op = "mfree" /\ e.dam = <<>>
  /\ e.res = (IF IsHeap(e.h) THEN 1 ELSE 0)
  /\ blk' = (IF e.res = 1 THEN Without({e.h}) ELSE blk)
  /\ UNCHANGED <<ar, stk>> /\ Free
Piece(e) ==
  /\ e.op = "mpiece" /\ e.dam = <<>>
  /\ e.res = (IF IsHeap(e.h) /\ e.n >= 0 THEN 1 ELSE 0)
  /\ blk' = (IF e.res = 0 THEN blk ELSE IF e.n >= blk[e.h].n THEN Without({e.h})
             ELSE [blk EXCEPT ![e.h].n = @ - e.n, ![e.h].hi = @ - e.n * Sz(blk[e.h].t)])
  /\ UNCHANGED <<ar, stk>> /\ Free
Pop(e) ==
  /\ e.op = "mpop" /\ e.dam = <<>>
  /\ e.res = (IF stk # <<>> /\ stk[Len(stk)] = e.h THEN 1 ELSE 0)
  /\ blk' = (IF e.res = 1 THEN Without({e.h}) ELSE blk)
  /\ stk' = (IF e.res = 1 THEN SubSeq(stk, 1, Len(stk) - 1) ELSE stk)
  /\ UNCHANGED ar /\ Free
Chop(e) ==
  /\ e.op = "mchop" /\ e.dam = <<>>
  /\ e.res = (IF IsStack(e.h) THEN 1 ELSE 0)
  /\ IF e.res = 1
     THEN LET k == CHOOSE k \in 1..Len(stk) : stk[k] = e.h
          IN blk' = Without({stk[j] : j \in k..Len(stk)}) /\ stk' = SubSeq(stk, 1, k - 1)
     ELSE UNCHANGED <<blk, stk>>
  /\ UNCHANGED ar /\ Free
(* ---- questions ---- *)
Get(e) == /\ e.op = "mget" /\ e.dam = <<>>
          /\ IF e.h \in DOMAIN blk THEN e.o = <<1, 1, blk[e.h].lo, 0>> ELSE e.o[1] = 0 /\ e.o[2] = 0
          /\ UNCHANGED <<ar, blk, stk>> /\ Free
Verify(e) == /\ e.op = "mverify" /\ e.dam = <<>> /\ e.o = <<1>> /\ UNCHANGED <<ar, blk, stk>> /\ Free
(* a byte next to a block is overwritten, then restored: verification before, during, after *)
Smash(e) == /\ e.op = "msmash" /\ e.dam = <<>>
            /\ (e.h \in DOMAIN blk => e.o = <<1, 0, 0, 1>>)
            /\ UNCHANGED <<ar, blk, stk>> /\ Free
Numalign(e) == /\ e.op = "malign" /\ e.o = <<IF e.n \in 0..30 THEN 1 ELSE 0, IF e.n \in 0..30 THEN e.n ELSE ar.na>>
               /\ ar' = (IF e.n \in 0..30 THEN [ar EXCEPT !.na = e.n, !.maxna = IF @ < e.n THEN e.n ELSE @] ELSE ar)
               /\ UNCHANGED <<blk, stk>> /\ Free
(* inquiries: not more than there is, and not much less *)
Inquire(e) ==
  /\ e.op = "minq" /\ e.dam = <<>>
  /\ LET s == Sz(e.t)  sl == Slack(Ov(e.t), ar.maxna)
         mid == StackGap(Live, ar.size)
         hole == Biggest(HeapGaps(Live, ar.size))
     IN /\ \A j \in 1..7 : e.o[j] >= 0 /\ e.o[j] <= ar.size \div s
        /\ \A j \in {1, 6, 7} : e.o[j] * s <= mid
        /\ e.o[3] * s <= hole /\ e.o[4] * s <= hole
        /\ e.o[1] * s + sl >= mid /\ e.o[7] * s + sl >= mid /\ e.o[4] * s + sl >= mid
        /\ (Live = {} => e.o[3] * s + sl >= ar.part /\ e.o[2] = e.o[3] /\ e.o[5] = e.o[6]
                         /\ e.o[5] * s + sl >= ar.st * Sz(ar.t))
  /\ UNCHANGED <<ar, blk, stk>> /\ Free
Sizeof(e) == /\ e.op = "msizeof" /\ e.o = <<(e.n * Sz(e.t) + Sz(e.u) - 1) \div Sz(e.u)>> /\ UNCHANGED <<ar, blk, stk>> /\ Free

Step(e) == \/ Case(e) \/ Start(e) \/ Alloc(e) \/ Release(e) \/ Piece(e) \/ Pop(e) \/ Chop(e) \/ Get(e)
           \/ Verify(e) \/ Smash(e) \/ Numalign(e) \/ Inquire(e) \/ Sizeof(e)
Reject(e) == /\ e.op # "case" /\ ~ ENABLED Step(e)
             /\ PrintT(<<"MISMATCH", e.id, e.r, e.op, e, "blocks", blk, "stack", stk, "arena", ar>>)
             /\ bad' = Append(bad, l) /\ l' = nx /\ UNCHANGED <<ar, blk, stk, nx>>
Follow == l <= Len(Trace) /\ Step(Trace[l])
Explain == l <= Len(Trace) /\ (Step(Trace[l]) \/ Reject(Trace[l]))
Spec == Init /\ [][Follow]_vars
ExplainSpec == Init /\ [][Explain]_vars
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace), <<"REJECTED", TLCGet("stats").diameter>>)
=============================================================================
