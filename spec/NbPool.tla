------------------------------- MODULE NbPool -------------------------------
(* The two pools behind non-blocking operations.  An operation has a slot    *)
(* (handle = slot and tag) and one link per piece (a request to the runtime).*)
(* There are fewer slots and links than operations: issuing one may have to  *)
(* complete the requests of an older one and take its slot or link over.     *)
(* Checked: when wait returns for an operation, or test says it is complete, *)
(* all its pieces are complete; the lists of links stay consistent; no       *)
(* operation completes with a link of another one.                           *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS NSlots, NLinks, MaxOps, MaxPieces,
          RecycleWaits,   \* taking over a link completes its request first
          ChecksTag       \* wait compares the tag of the handle with that of the slot

Slots == 0..(NSlots - 1)
Links == 0..(NLinks - 1)
None == -1
Free == [slot |-> None, op |-> 0, piece |-> 0]

VARIABLES slot,   \* slot -> [tag, links (set), active]
          link,   \* link -> [slot, op, piece] or None
          oper,   \* operation number -> [slot, st: "open" / "closed", n]
          done,   \* pieces <<op, i>> the runtime has completed
          lastS, lastL, ok
vars == <<slot, link, oper, done, lastS, lastL, ok>>

Init == /\ slot = [s \in Slots |-> [tag |-> None, links |-> {}, active |-> FALSE]]
        /\ link = [k \in Links |-> Free]
        /\ oper = <<>>
        /\ done = {}
        /\ lastS = NSlots - 1 /\ lastL = NLinks - 1
        /\ ok = TRUE

InUse(lk, k) == lk[k] # Free
\* the first position from i on (cyclic) for which free holds, else i itself
FirstFree(free, i, n) ==
  LET c == {d \in 0..(n - 1) : free[(i + d) % n]}
  IN IF c = {} THEN i ELSE (i + (CHOOSE d \in c : \A x \in c : d <= x)) % n

PieceOf(l) == <<l.op, l.piece>>

\* completes everything a slot holds
Clear(sl, lk, dn, s) ==
  [slot |-> [sl EXCEPT ![s].links = {}, ![s].active = FALSE],
   link |-> [k \in Links |-> IF k \in sl[s].links THEN Free ELSE lk[k]],
   done |-> dn \cup {PieceOf(lk[k]) : k \in sl[s].links}]

\* one piece of operation o takes a link
TakeLink(st, s, o, p) ==
  LET k == FirstFree([j \in Links |-> st.link[j] = Free], (st.last + 1) % NLinks, NLinks)
      busy == st.link[k] # Free
      own == IF busy THEN st.link[k].slot ELSE s
      sl1 == IF busy THEN [st.slot EXCEPT ![own].links = @ \ {k}] ELSE st.slot
      dn1 == IF busy /\ RecycleWaits THEN st.done \cup {PieceOf(st.link[k])} ELSE st.done
  IN [slot |-> [sl1 EXCEPT ![s].links = @ \cup {k}],
      link |-> [st.link EXCEPT ![k] = [slot |-> s, op |-> o, piece |-> p]],
      done |-> dn1, last |-> k]
RECURSIVE TakeLinks(_, _, _, _, _)
TakeLinks(st, s, o, p, n) == IF p > n THEN st ELSE TakeLinks(TakeLink(st, s, o, p), s, o, p + 1, n)

Issue(n) ==
  LET o == Len(oper) + 1
      s == FirstFree([j \in Slots |-> slot[j].links = {}], (lastS + 1) % NSlots, NSlots)
      c == IF slot[s].links # {} THEN Clear(slot, link, done, s) ELSE [slot |-> slot, link |-> link, done |-> done]
      st == [slot |-> [c.slot EXCEPT ![s].tag = o, ![s].active = TRUE], link |-> c.link, done |-> c.done, last |-> lastL]
      r == TakeLinks(st, s, o, 1, n)
  IN /\ Len(oper) < MaxOps
     /\ oper' = Append(oper, [slot |-> s, st |-> "open", n |-> n])
     /\ slot' = r.slot /\ link' = r.link /\ done' = r.done /\ lastL' = r.last /\ lastS' = s
     /\ UNCHANGED ok

\* the runtime may complete a request at any time
Progress == \E k \in Links : /\ link[k] # Free /\ PieceOf(link[k]) \notin done
                            /\ done' = done \cup {PieceOf(link[k])}
                            /\ UNCHANGED <<slot, link, oper, lastS, lastL, ok>>

AllDone(o, dn) == \A p \in 1..oper[o].n : <<o, p>> \in dn

Wait(o) ==
  LET s == oper[o].slot
      mine == ~ChecksTag \/ slot[s].tag = o
      c == IF mine THEN Clear(slot, link, done, s) ELSE [slot |-> slot, link |-> link, done |-> done]
  IN /\ oper[o].st = "open"
     /\ oper' = [oper EXCEPT ![o].st = "closed"]
     /\ slot' = c.slot /\ link' = c.link /\ done' = c.done
     /\ ok' = (ok /\ AllDone(o, c.done))
     /\ UNCHANGED <<lastS, lastL>>
\* test releases the links of the pieces found complete
Test(o) ==
  LET s == oper[o].slot
      mine == slot[s].tag = o
      fin == {k \in slot[s].links : PieceOf(link[k]) \in done}
      rest == slot[s].links \ fin
      says == ~mine \/ rest = {}
  IN /\ oper[o].st = "open"
     /\ slot' = IF mine THEN [slot EXCEPT ![s].links = rest, ![s].active = (rest # {})] ELSE slot
     /\ link' = IF mine THEN [k \in Links |-> IF k \in fin THEN Free ELSE link[k]] ELSE link
     /\ oper' = IF says THEN [oper EXCEPT ![o].st = "closed"] ELSE oper
     /\ ok' = (ok /\ (says => AllDone(o, done)))
     /\ UNCHANGED <<done, lastS, lastL>>

Next == \/ \E n \in 1..MaxPieces : Issue(n)
        \/ Progress
        \/ \E o \in 1..Len(oper) : Wait(o) \/ Test(o)
Spec == Init /\ [][Next]_vars

CompleteMeansComplete == ok
Consistent == /\ \A s \in Slots, k \in Links : (k \in slot[s].links) <=> (link[k] # Free /\ link[k].slot = s)
              /\ \A k \in Links : link[k] # Free => slot[link[k].slot].tag = link[k].op
\* pieces are never forgotten: each is complete or has a link
NothingForgotten == \A o \in 1..Len(oper) : \A p \in 1..oper[o].n :
                      <<o, p>> \in done \/ \E k \in Links : link[k] # Free /\ PieceOf(link[k]) = <<o, p>>
=============================================================================
