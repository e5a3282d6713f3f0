----------------------------- MODULE GATransfer -----------------------------
(* How one-sided operations travel: a section is split by owner, each piece  *)
(* is applied directly (shared memory) or sent as an active message to the   *)
(* owner's server over a channel that keeps the order of one sender.  A put  *)
(* or accumulate is complete for its caller when it has been sent; fence     *)
(* waits for an acknowledgement of everything sent before.                   *)
(*                                                                           *)
(* Checked: what a process reads after its own stores (C05: program order),  *)
(* what everybody reads after a barrier (C05/C06), that accumulates are      *)
(* never lost (C02), and that the pieces together are the operation (C01).   *)
(* The abstract state abs is GAData's: each operation applied at once when   *)
(* it is issued.  Cells in Acc are only accumulated to; every other cell has *)
(* one writer per epoch, which is what makes the outcome determined.         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Procs, Cells, MaxOps,
          Direct,    \* "all": shared memory; "none": messages; "contig": only contiguous pieces
                     \* are applied directly (a port that mixes the paths); "fenced": the same, and
                     \* a direct access first waits for the messages sent before
          FenceWorks \* FALSE: fence does not wait

Owner(c) == c % Cardinality(Procs)
AccCells == {c \in Cells : c >= Cardinality(Cells) - 1}
PutCells == Cells \ AccCells

VARIABLES mem,   \* what the owners hold
          chan,  \* <<from, to>> -> messages
          abs,   \* GAData's contents
          pc, epoch, writer, nops, seen, okay
vars == <<mem, chan, abs, pc, epoch, writer, nops, seen, okay>>

Init == /\ mem = [c \in Cells |-> 0]
        /\ abs = [c \in Cells |-> 0]
        /\ chan = [p \in Procs \X Procs |-> <<>>]
        /\ pc = [p \in Procs |-> "run"]
        /\ epoch = 0
        /\ writer = [c \in Cells |-> -1]
        /\ nops = [p \in Procs |-> 0]
        /\ seen = 0
        /\ okay = TRUE

Sections == {s \in SUBSET Cells : s # {} /\ Cardinality(s) <= 2}
\* a section is contiguous at an owner when it is one cell there
Piece(s, q) == {c \in s : Owner(c) = q}
Pieces(s) == {q \in Procs : Piece(s, q) # {}}
IsDirect(p, s, q) == \/ Direct = "all" \/ p = q
                     \/ Direct \in {"contig", "fenced"} /\ Cardinality(Piece(s, q)) = 1
Clear(p, q) == Direct # "fenced" \/ chan[<<p, q>>] = <<>>

DoApply(m, k, v, s) == [c \in Cells |-> IF c \in s THEN (IF k = "put" THEN v ELSE m[c] + v) ELSE m[c]]

Store(p, k, s, v) ==
  LET dir == {c \in s : IsDirect(p, s, Owner(c))}
  IN /\ pc[p] = "run" /\ nops[p] < MaxOps
     /\ IF k = "put" THEN s \subseteq PutCells /\ \A c \in s : writer[c] \in {-1, p} ELSE s \subseteq AccCells
     /\ \A c \in dir : Clear(p, Owner(c))
     /\ mem' = DoApply(mem, k, v, dir)
     /\ chan' = [x \in Procs \X Procs |->
                  IF x[1] = p /\ Piece(s \ dir, x[2]) # {}
                  THEN Append(chan[x], [k |-> k, s |-> Piece(s \ dir, x[2]), v |-> v]) ELSE chan[x]]
     /\ abs' = DoApply(abs, k, v, s)
     /\ writer' = [c \in Cells |-> IF k = "put" /\ c \in s THEN p ELSE writer[c]]
     /\ nops' = [nops EXCEPT ![p] = @ + 1]
     /\ UNCHANGED <<pc, epoch, seen, okay>>

Serve(q) == \E p \in Procs :
  /\ chan[<<p, q>>] # <<>>
  /\ LET m == Head(chan[<<p, q>>]) IN mem' = DoApply(mem, m.k, m.v, m.s)
  /\ chan' = [chan EXCEPT ![<<p, q>>] = Tail(@)]
  /\ UNCHANGED <<abs, pc, epoch, writer, nops, seen, okay>>

(* A get of section s: direct pieces are read at once, the others by a       *)
(* request that the server answers after what was sent before.               *)
Readable(p, c) == writer[c] \in {-1, p} /\ c \in PutCells
Get(p, s) ==
  /\ pc[p] = "run" /\ nops[p] < MaxOps
  /\ \A c \in s : Readable(p, c)
  /\ \A c \in s : IF IsDirect(p, s, Owner(c)) THEN Clear(p, Owner(c)) ELSE chan[<<p, Owner(c)>>] = <<>>
  /\ okay' = (okay /\ \A c \in s : mem[c] = abs[c])
  /\ nops' = [nops EXCEPT ![p] = @ + 1]
  /\ seen' = (seen + 1) % 2
  /\ UNCHANGED <<mem, chan, abs, pc, epoch, writer>>

\* ga_sync: fence everything, then wait for the others
Enter(p) == /\ pc[p] = "run"
            /\ FenceWorks => \A q \in Procs : chan[<<p, q>>] = <<>>
            /\ pc' = [pc EXCEPT ![p] = "in"]
            /\ UNCHANGED <<mem, chan, abs, epoch, writer, nops, seen, okay>>
Barrier == /\ \A p \in Procs : pc[p] = "in"
           /\ pc' = [p \in Procs |-> "run"]
           /\ epoch' = epoch + 1 /\ epoch < 2
           /\ okay' = (okay /\ mem = abs)
           /\ writer' = [c \in Cells |-> -1]
           /\ UNCHANGED <<mem, chan, abs, nops, seen>>

\* p fences its stores to cell c and tells q, who may use c from now on
Hand(p, c, q) == /\ pc[p] = "run" /\ pc[q] = "run" /\ p # q /\ writer[c] = p
                 /\ FenceWorks => chan[<<p, Owner(c)>>] = <<>>
                 /\ writer' = [writer EXCEPT ![c] = q]
                 /\ UNCHANGED <<mem, chan, abs, pc, epoch, nops, seen, okay>>

Next == \/ \E p \in Procs : \/ \E s \in Sections, k \in {"put", "acc"}, v \in {1, 2} : Store(p, k, s, v)
                            \/ \E s \in Sections : Get(p, s)
                            \/ Enter(p)
                            \/ \E c \in PutCells, q \in Procs : Hand(p, c, q)
        \/ \E q \in Procs : Serve(q)
        \/ Barrier
Spec == Init /\ [][Next]_vars

\* every read and every barrier saw exactly GAData's contents
Visible == okay
\* whatever is still under way is only what chan holds: nothing lost, nothing twice
RECURSIVE Pending(_, _)
Pending(ch, c) == IF ch = <<>> THEN 0
                  ELSE (IF c \in Head(ch).s THEN Head(ch).v ELSE 0) + Pending(Tail(ch), c)
Sum2(c) == LET S == {x \in Procs \X Procs : chan[x] # <<>>}
               F[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN Pending(chan[x], c) + F[T \ {x}]
           IN F[S]
Conserved == \A c \in AccCells : mem[c] + Sum2(c) = abs[c]
=============================================================================
