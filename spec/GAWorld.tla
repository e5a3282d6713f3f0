------------------------------ MODULE GAWorld ------------------------------
(* The whole system a Global Arrays program sees: the data plane (GAData)    *)
(* and, on top of it, synchronization.  Other parts of the system are added  *)
(* here, each as a module of its own.                                        *)
EXTENDS GAData, GADist, GALife, GAGroups, GAElem, GAMatrix, GAGhosts, GAScan, GAProp

VARIABLES bar,    \* the synchronization being recorded: its number, latest entry, earliest exit
          dst,    \* array -> what was asked for (q), its blocks (D, flat) and the processes' places (pi)
          life,   \* handles, descriptions and memory (GALife)
          grps,   \* process groups (GAGroups)
          gst     \* ghost cells (GAGhosts)
wvars == <<arr, pend, cover, bar, dst, life, grps, gst>>

NoBar == [id |-> 0, mx |-> 0, mn |-> 0]
WInit == DInit /\ bar = NoBar /\ dst = <<>> /\ life = LInit /\ grps = GInit /\ gst = <<>>
WReset == /\ arr' = [a \in 0..(MaxArr - 1) |-> NoArray] /\ pend' = <<>> /\ cover' = <<>> /\ bar' = NoBar
          /\ dst' = <<>> /\ life' = LInit /\ grps' = GInit /\ gst' = <<>>

(* ---- synchronization: the events of one synchronization, one per member,  *)
(* carry the time of entering (s) and of leaving (e): nobody leaves before   *)
(* the last has entered.                                                     *)
BSync(e) ==
  LET b == IF bar.id = e.id THEN [id |-> e.id, mx |-> IF e.s > bar.mx THEN e.s ELSE bar.mx,
                                  mn |-> IF e.e < bar.mn THEN e.e ELSE bar.mn]
                            ELSE [id |-> e.id, mx |-> e.s, mn |-> e.e]
  IN /\ b.mx < b.mn
     /\ bar' = b
     /\ UNCHANGED <<dvars, dst, life, grps, gst>>
\* a synchronization of the members rs completes their outstanding stores
\* (their buffers are not given back before they are waited for)
SyncAll(e) ==
  LET todo == {x \in DOMAIN pend : pend[x].op # "nbget" /\ x[1] \in Range(e.rs) /\ ~ ("done" \in DOMAIN pend[x])}
      ord == SetToSeq(todo)
      app(d, i) == LET q == pend[ord[i]]
                       c == Cells(q)
                   IN [d EXCEPT ![q.a].data =
                         IF q.op = "nbput" THEN Store(@, c, q.v)
                         ELSE IF "calpha" \in DOMAIN q THEN AccumulateC(@, c, q.v, q.calpha) ELSE Accumulate(@, c, q.v, q.alpha)]
  IN /\ arr' = FoldLeftDomain(app, arr, ord)
     /\ pend' = [x \in DOMAIN pend |-> IF x \in todo THEN pend[x] @@ [done |-> 1] ELSE pend[x]]
     /\ UNCHANGED <<cover, bar, dst, life, grps, gst>>
CompleteDone(e) == /\ pend[<<e.r, e.h>>].op # "nbget" /\ e.pad = 0
                   /\ pend' = [x \in DOMAIN pend \ {<<e.r, e.h>>} |-> pend[x]]
                   /\ UNCHANGED <<arr, cover, bar, dst, life, grps, gst>>

(* ---- distributions: an array whose distribution is looked at is announced *)
(* with the request (dcreate); the first answer fixes the blocks, all others *)
(* must be the same.                                                         *)
DCreate(e) == /\ dst' = (e.a :> [q |-> e.q, D |-> <<>>, pi |-> <<>>]) @@ dst
              /\ UNCHANGED <<dvars, bar, life, grps, gst>>
Dist(e) ==
  LET d == dst[e.a]
      n == Len(d.q.dims)
      D == IF d.D = <<>> THEN e.D ELSE d.D
      B == Blocks(D, n)
  \* (compared with TRUE so that TLC evaluates it as a value, not as an action with alternatives)
  IN /\ TRUE = (/\ e.D = D
                /\ d.D = <<>> => BlocksOK(d.q, B)
                /\ LocateOK(d.q, B, e.pts, e.L)
                /\ RegionsOK(d.q, B, e.boxes, e.R, 1, 1)
                /\ CountsOK(d.q, B, e)
                /\ d.pi # <<>> => e.pi = d.pi)
     /\ dst' = [dst EXCEPT ![e.a].D = D, ![e.a].pi = e.pi]
     /\ UNCHANGED <<dvars, bar, life, grps, gst>>
\* comparison of two arrays looked at: 0 when the distributions are the same
Compare(e) ==
  LET x == dst[e.a]  y == dst[e.b]
  IN /\ TRUE = ((e.ce = 0 => x.D = y.D /\ x.pi = y.pi) /\ (x.q = y.q => e.ce = 0))
     /\ UNCHANGED wvars
\* direct access shows a process its own blocks
LocalBlocks(e) ==
  LET d == dst[e.a]
      p == IF "pos" \in DOMAIN e THEN e.pos ELSE e.r
      idx == [j \in 1..(Len(e.o) \div 2) |-> e.o[2 * j - 1] + 1]
  IN {idx[j] : j \in DOMAIN idx} = OwnCells(d.q, Blocks(d.D, Len(d.q.dims)), d.pi, p)

(* ---- life cycle: every event is the report of one process *)
Want(e) == IF e.op = "ldup" THEN [k \in {"name", "typ", "dims", "grp", "cyc"} |-> IF k = "name" THEN e.want.name ELSE life.live[e.from][k]] ELSE e.want
LifeOK(e) ==
  CASE e.op \in {"lcreate", "ldup"} -> LNewOK(life, e, Want(e))
    [] e.op \in {"ldestroy", "ldealloc"} -> LOffOK(life, e)
    [] e.op = "lfail" -> LFailOK(life, e)
    [] e.op = "lalloc" -> LOnOK(life, e) /\ Is(life.live[e.a], e)
    [] e.op = "lq" -> LAskOK(life, e)
    [] e.op = "lold" -> LOldOK(life, e)
    [] e.op = "llimit" -> LLimitOK(life, e)
    [] e.op = "lptr" -> LApartOK(e)
    [] e.op = "linitlimit" -> TRUE
LifeNext(e) ==
  CASE e.op \in {"lcreate", "ldup"} -> LNew(life, e, Want(e))
    [] e.op = "ldestroy" -> LGone(life, e)
    [] e.op = "ldealloc" -> LOff(life, e)
    [] e.op = "lalloc" -> LOn(life, e)
    [] e.op = "llimit" -> LLimit(life, e)
    [] e.op = "linitlimit" -> [life EXCEPT !.avail = [r \in 0..(e.n - 1) |-> e.x], !.limit = [r \in 0..(e.n - 1) |-> e.x]]
    [] OTHER -> life
LifeOps == {"lcreate", "ldup", "ldestroy", "ldealloc", "lfail", "lalloc", "lq", "lold", "llimit", "lptr", "linitlimit"}
LifeStep(e) == /\ TRUE = LifeOK(e)
               /\ life' = LifeNext(e)
               /\ UNCHANGED <<dvars, bar, dst, grps, gst>>

(* ---- groups and collective communication *)
GroupOps == {"gworld", "gmake", "gask", "gdef", "gfree"}
GroupStep(e) == /\ TRUE = GroupOK(grps, e)
                /\ grps' = GroupNext(grps, e)
                /\ UNCHANGED <<dvars, bar, dst, life, gst>>
CollStep(e) == TRUE = CollOK(e) /\ UNCHANGED wvars

(* ---- whole-array and patch operations *)
ElemStep(e) == /\ arr' = [arr EXCEPT ![e.C.a].data = ElemData(e)]
               /\ UNCHANGED <<pend, cover, bar, dst, life, grps, gst>>
ElemAsk(e) == TRUE = ElemOK(e) /\ UNCHANGED wvars

(* ---- matrices *)
MatStep(e) == /\ e.f = "solve" => TRUE = Solves(e)
              /\ arr' = [arr EXCEPT ![MatTarget(e)].data = MatData(e)]
              /\ UNCHANGED <<pend, cover, bar, dst, life, grps, gst>>
NormAsk(e) == TRUE = (e.v = Norm(e)) /\ UNCHANGED wvars

(* ---- ghost cells: gblk announces the block of a process, gup is an update, gread and gwrite are
   accesses of a process to its memory, gget reads a section through NGA_Get_ghost_block *)
GhBlk(e) ==
  LET b == [lo |-> e.lo, hi |-> e.hi]
      old == IF e.a \in DOMAIN gst THEN gst[e.a].b ELSE <<>>
      new == [lo |-> e.lo, hi |-> e.hi, v |-> [k \in 1..Size(e.pd) |-> GhUnknown]]
  IN /\ e.pd = GhShape(b, e.w)
     /\ gst' = [x \in DOMAIN gst \cup {e.a} |->
                  IF x # e.a THEN gst[x] ELSE [w |-> e.w, b |-> [p \in DOMAIN old \cup {e.r} |-> IF p # e.r THEN old[p] ELSE new]]]
     /\ UNCHANGED <<dvars, bar, dst, life, grps>>
GhUp(e) == /\ gst' = [gst EXCEPT ![e.a].b = [p \in DOMAIN @ |->
                IF e.f = "mask" /\ e.r # p THEN @[p]
                ELSE [@[p] EXCEPT !.v = GhUpdated(arr[e.a].dims, arr[e.a].data, gst[e.a].b[p], gst[e.a].w, e)]]]
           /\ UNCHANGED <<dvars, bar, dst, life, grps>>
GhRead(e) == TRUE = GhAgrees(e.v, GhLook(arr[e.a].dims, arr[e.a].data, gst[e.a].b[e.r], gst[e.a].w)) /\ UNCHANGED wvars
GhWrite(e) ==
  LET b == gst[e.a].b[e.r]
      w == gst[e.a].w
      sh == GhShape(b, w)
      in == TLCEval([j \in DOMAIN e.at |-> GhInside(b, GhAt(b, w, sh, e.at[j] + 1))])
  IN /\ gst' = [gst EXCEPT ![e.a].b[e.r].v = FoldLeftDomain(LAMBDA v, j : IF in[j] THEN v ELSE [v EXCEPT ![e.at[j] + 1] = e.v[j]], @, e.at)]
     /\ arr' = [arr EXCEPT ![e.a].data = FoldLeftDomain(LAMBDA d, j :
                  IF in[j] THEN [d EXCEPT ![GhMirror(arr[e.a].dims, GhAt(b, w, sh, e.at[j] + 1))] = e.v[j]] ELSE d, @, e.at)]
     /\ UNCHANGED <<pend, cover, bar, dst, life, grps>>
GhGet(e) == /\ TRUE = (e.pad = 0 /\ GhAgrees(e.v, GhSection(arr[e.a].dims, arr[e.a].data, gst[e.a].b[e.r], gst[e.a].w, e.lo, e.hi)))
            /\ UNCHANGED wvars

(* ---- scans, packing, bins, selection *)
Dat(a) == arr[a].data
ScanStep(e) ==
  LET new == CASE e.f = "enum" -> Enumerated(Dat(e.d), e)
               [] e.f = "copy" -> ScanCopied(Dat(e.s), Dat(e.d), Dat(e.m), e)
               [] e.f = "add" -> ScanAdded(Dat(e.s), Dat(e.d), Dat(e.m), e)
               [] e.f = "pack" -> Packed(Dat(e.s), Dat(e.d), Dat(e.m), e)
               [] e.f = "unpack" -> Unpacked(Dat(e.s), Dat(e.d), Dat(e.m), e)
  IN /\ e.f \in {"pack", "unpack"} => TRUE = (e.n = Len(Marked(Dat(e.m), e)))
     /\ arr' = [arr EXCEPT ![e.d].data = new]
     /\ UNCHANGED <<pend, cover, bar, dst, life, grps, gst>>
BinStep(e) == /\ TRUE = BinsOK(Dat(e.b), Dat(e.c), Dat(e.o), e)
              /\ arr' = [arr EXCEPT ![e.b].data = e.v]
              /\ UNCHANGED <<pend, cover, bar, dst, life, grps, gst>>
SelectAsk(e) == TRUE = SelectOK(arr[e.a].dims, Dat(e.a), e) /\ UNCHANGED wvars

(* ---- properties and mirrored arrays *)
PropStep(e) == /\ arr' = PropData(e)
               /\ UNCHANGED <<pend, cover, bar, dst, life, grps, gst>>
Expect(e) == e.v = e.want /\ UNCHANGED wvars

WStep(e) ==
  CASE e.op = "bsync" -> BSync(e)
    [] e.op = "syncall" -> SyncAll(e)
    [] e.op \in {"nbwait", "nbtest"} /\ <<e.r, e.h>> \in DOMAIN pend /\ "done" \in DOMAIN pend[<<e.r, e.h>>] -> CompleteDone(e)
    [] e.op = "dcreate" -> DCreate(e)
    [] e.op = "dist" -> Dist(e)
    [] e.op = "compare" -> Compare(e)
    [] e.op \in LifeOps -> LifeStep(e)
    [] e.op \in GroupOps -> GroupStep(e)
    [] e.op \in {"gop", "bcast"} -> CollStep(e)
    [] e.op = "elem" -> ElemStep(e)
    [] e.op \in {"dot", "stepmax", "bounds"} -> ElemAsk(e)
    [] e.op = "mat" -> MatStep(e)
    [] e.op = "norm" -> NormAsk(e)
    [] e.op = "gblk" -> GhBlk(e)
    [] e.op = "gup" -> GhUp(e)
    [] e.op = "gread" -> GhRead(e)
    [] e.op = "gwrite" -> GhWrite(e)
    [] e.op = "gget" -> GhGet(e)
    [] e.op = "scan" -> ScanStep(e)
    [] e.op = "bins" -> BinStep(e)
    [] e.op = "select" -> SelectAsk(e)
    [] e.op \in {"merge", "mpatch", "mcopy"} -> PropStep(e)
    [] e.op = "expect" -> Expect(e)
    [] e.op = "local" /\ e.a \in DOMAIN dst -> LocalBlocks(e) /\ DStep(e) /\ UNCHANGED <<bar, dst, life, grps, gst>>
    [] OTHER -> DStep(e) /\ UNCHANGED <<bar, dst, life, grps, gst>>

WExpected(e) ==
  CASE e.op = "bsync" -> <<"entered", bar.mx, "left", bar.mn>>
    [] e.op = "dist" ->
         (LET d == dst[e.a]  n == Len(d.q.dims)  D == IF d.D = <<>> THEN e.D ELSE d.D  B == Blocks(D, n)
          IN <<"request", d.q, "blocks", D, "same", e.D = D, "blocks ok", BlocksOK(d.q, B), "locate", LocateOK(d.q, B, e.pts, e.L),
               "regions", RegionsOK(d.q, B, e.boxes, e.R, 1, 1), "counts", CountsOK(d.q, B, e), "pi", d.pi>>)
    [] e.op \in LifeOps ->
         <<"used", Used(life, e.r), "handles", [b \in Mine(life, e.r) |-> life.live[b].h[e.r]], "avail", life.avail,
           "array", IF "a" \in DOMAIN e /\ e.a \in DOMAIN life.live THEN life.live[e.a] ELSE "none">>
    [] e.op = "gmake" -> <<"members", Made(grps, e), "handles", [x \in HandlesOf(grps, e.r) |-> grps.h[x]]>>
    [] e.op \in {"gask", "gdef"} -> <<"members", Group(grps, e.r, e.g)>>
    [] e.op = "gop" -> Reduced(e)
    [] e.op = "dot" -> Dot(e)
    [] e.op = "stepmax" -> StepMax(e)
    [] e.op = "bounds" -> Bounds(e)
    [] e.op = "norm" -> Norm(e)
    [] e.op = "gread" -> GhLook(arr[e.a].dims, arr[e.a].data, gst[e.a].b[e.r], gst[e.a].w)
    [] e.op = "gget" -> GhSection(arr[e.a].dims, arr[e.a].data, gst[e.a].b[e.r], gst[e.a].w, e.lo, e.hi)
    [] e.op = "scan" -> <<"marked", Marked(Dat(e.m), e)>>
    [] e.op = "bins" -> <<"bins before", Dat(e.b), "counts", Dat(e.c), "offsets", Dat(e.o)>>
    [] e.op = "select" -> Dat(e.a)
    [] e.op = "compare" -> <<dst[e.a].q = dst[e.b].q, dst[e.a].D = dst[e.b].D>>
    [] e.op = "local" /\ e.a \in DOMAIN dst ->
         <<OwnCells(dst[e.a].q, Blocks(dst[e.a].D, Len(dst[e.a].q.dims)), dst[e.a].pi, IF "pos" \in DOMAIN e THEN e.pos ELSE e.r)>>
    [] OTHER -> Expected(e)
=============================================================================
