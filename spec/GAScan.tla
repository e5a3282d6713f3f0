------------------------------- MODULE GAScan -------------------------------
(* Enumeration, segmented scans, packing, binning and selection, as functions *)
(* of the arrays' contents.  Positions lo..hi are counted from 0.             *)
EXTENDS GAIndex, FiniteSets, TLC

\* the last marked position up to k (cells count from 1), or 0
LastMark(m, lo, k) == LET s == {j \in (lo + 1)..k : m[j] # 0} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A i \in s : i <= j
RECURSIVE SumOf(_, _, _)
SumOf(v, i, j) == IF i > j THEN 0 ELSE v[i] + SumOf(v, i + 1, j)

Enumerated(d, e) == [k \in DOMAIN d |-> IF k - 1 \in e.lo..e.hi THEN e.start + (k - 1 - e.lo) * e.inc ELSE d[k]]
\* positions before the first mark: a copy gives zero there, a sum leaves them
ScanCopied(s, d, m, e) == [k \in DOMAIN d |-> IF k - 1 \in e.lo..e.hi
                             THEN (LET j == LastMark(m, e.lo, k) IN IF j = 0 THEN 0 ELSE s[j]) ELSE d[k]]
ScanAdded(s, d, m, e) == [k \in DOMAIN d |-> IF k - 1 \in e.lo..e.hi
                             THEN (LET j == LastMark(m, e.lo, k) IN IF j = 0 THEN d[k] ELSE SumOf(s, j, IF e.excl = 1 THEN k - 1 ELSE k)) ELSE d[k]]
Marked(m, e) == SelectSeq([i \in 1..(e.hi - e.lo + 1) |-> e.lo + i], LAMBDA k : m[k] # 0)
Packed(s, d, m, e) == LET q == Marked(m, e) IN [k \in DOMAIN d |-> IF k <= Len(q) THEN s[q[k]] ELSE d[k]]
Unpacked(s, d, m, e) == LET q == Marked(m, e) IN [k \in DOMAIN d |-> IF \E i \in DOMAIN q : q[i] = k THEN s[CHOOSE i \in DOMAIN q : q[i] = k] ELSE d[k]]

(* ---- bins: cnt and off are the contents of the arrays of counts and offsets; e.in: what the processes
   contribute, a sequence of pairs <<value, bin>>.  e.v: the contents found afterwards. *)
Occurs(v, s) == Cardinality({i \in DOMAIN s : s[i] = v})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Occurs(a[i], a) = Occurs(a[i], b)
BinsOK(d, cnt, off, e) ==
  LET given(b) == LET q == SelectSeq(e.in, LAMBDA p : p[2] = b) IN [i \in DOMAIN q |-> q[i][1]]
      found(b) == SubSeq(e.v, off[b] + 1, off[b] + cnt[b])
      used == UNION {(off[b] + 1)..(off[b] + cnt[b]) : b \in DOMAIN cnt}
  IN /\ Len(e.v) = Len(d)
     /\ \A b \in DOMAIN cnt : /\ SameBag(given(b), found(b))
                              /\ e.sort = 1 => \A i \in 1..(cnt[b] - 1) : found(b)[i] <= found(b)[i + 1]
     /\ \A k \in DOMAIN d : k \in used \/ e.v[k] = d[k]

(* ---- selection; complex numbers (mod = 1) are compared by their modulus *)
Magn(x, mod) == IF mod = 1 THEN (IF x < 0 THEN -x ELSE x) ELSE x
SelectOK(dims, d, e) ==
  LET k == Lin(dims, e.idx)
  IN /\ \A i \in DOMAIN dims : e.idx[i] \in 0..(dims[i] - 1)
     /\ e.v = d[k]
     /\ \A j \in DOMAIN d : IF e.f = "min" THEN Magn(d[k], e.mod) <= Magn(d[j], e.mod) ELSE Magn(d[k], e.mod) >= Magn(d[j], e.mod)
=============================================================================
