------------------------------- MODULE GAElem -------------------------------
(* Whole-array and patch operations: what each element becomes.  A patch is  *)
(* [a, lo, hi]; its elements are taken in row-major order, or with the first *)
(* dimension fastest when the operation transposes it.  The elements of a    *)
(* complex array (cx) are pairs of cells.  D is the denominator with which   *)
(* the fractions of floating-point arrays are written as integers.           *)
EXTENDS GAData

TDiv(x, y) == LET q == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y)
              IN IF (x < 0) = (y < 0) THEN q ELSE -q
Mag(x) == IF x < 0 THEN -x ELSE x

EDims(a, cx) == IF cx = 1 THEN Front(arr[a].dims) ELSE arr[a].dims
\* the elements (numbers) of a patch in order; t = 1: first dimension fastest
Elems(p, cx, t) ==
  LET d == EDims(p.a, cx)
      n == Len(d)
      rs == Reverse(Shape(p.lo, p.hi))
  IN IF t = 0 THEN SectionCells(d, p.lo, p.hi)
     ELSE [j \in 1..Size(rs) |-> LET c == Coord(rs, j) IN Lin(d, [i \in 1..n |-> p.lo[i] + c[n + 1 - i]])]
Val(a, k, cx) == IF cx = 1 THEN <<arr[a].data[2 * k - 1], arr[a].data[2 * k]>> ELSE arr[a].data[k]
Vals(p, cx, t) == LET s == Elems(p, cx, t) IN TLCEval([j \in 1..Len(s) |-> Val(p.a, s[j], cx)])
PutVals(data, els, v, cx) ==
  FoldLeftDomain(LAMBDA d, j : IF cx = 1 THEN [d EXCEPT ![2 * els[j] - 1] = v[j][1], ![2 * els[j]] = v[j][2]]
                                         ELSE [d EXCEPT ![els[j]] = v[j]], data, els)

(* ---- arithmetic of elements *)
Plus(x, y, cx) == IF cx = 1 THEN <<x[1] + y[1], x[2] + y[2]>> ELSE x + y
\* scalar factors are plain numbers
Fac(al, x, cx) == IF cx = 1 THEN <<al[1] * x[1] - al[2] * x[2], al[1] * x[2] + al[2] * x[1]>> ELSE al[1] * x
Times(x, y, D, cx) == IF cx = 1 THEN <<TDiv(x[1] * y[1] - x[2] * y[2], D), TDiv(x[1] * y[2] + x[2] * y[1], D)>>
                                ELSE TDiv(x * y, D)
Over(x, y, D, cx) == IF cx = 1 THEN LET m == y[1] * y[1] + y[2] * y[2]
                                    IN <<TDiv(D * (x[1] * y[1] + x[2] * y[2]), m), TDiv(D * (x[2] * y[1] - x[1] * y[2]), m)>>
                               ELSE TDiv(x * D, y)
Recip1(x, D, cx) == IF cx = 1 THEN LET m == x[1] * x[1] + x[2] * x[2] IN <<TDiv(D * D * x[1], m), TDiv(-(D * D * x[2]), m)>>
                                ELSE TDiv(D * D, x)
\* size of an element, for comparisons: the square of the modulus of a complex number
Sz(x, cx) == IF cx = 1 THEN x[1] * x[1] + x[2] * x[2] ELSE x
\* modulus; the complex numbers used have integer ones
Root(m) == CHOOSE r \in 0..m : r * r = m
AbsV(x, cx) == IF cx = 1 THEN <<Root(x[1] * x[1] + x[2] * x[2]), 0>> ELSE Mag(x)
MaxV(x, y, cx) == IF Sz(x, cx) > Sz(y, cx) THEN x ELSE y
MinV(x, y, cx) == IF Sz(x, cx) < Sz(y, cx) THEN x ELSE y
MedV(x, y, z, cx) == IF Sz(x, cx) <= Sz(y, cx)
                     THEN (IF Sz(z, cx) <= Sz(x, cx) THEN x ELSE IF Sz(z, cx) <= Sz(y, cx) THEN z ELSE y)
                     ELSE (IF Sz(z, cx) <= Sz(y, cx) THEN y ELSE IF Sz(z, cx) <= Sz(x, cx) THEN z ELSE x)

Scal(v, cx) == IF cx = 1 THEN <<v[1], v[2]>> ELSE v[1]
NewVals(e) ==
  LET cx == e.cx
      c == IF e.f \in {"addc", "abs", "recip", "scale"} THEN Vals(e.C, cx, 0) ELSE <<>>
      x == IF "A" \in DOMAIN e THEN Vals(e.A, cx, e.tr) ELSE <<>>
      y == IF "B" \in DOMAIN e THEN Vals(e.B, cx, 0) ELSE <<>>
      z == IF "M" \in DOMAIN e THEN Vals(e.M, cx, 0) ELSE <<>>
      n == Size(Shape(e.C.lo, e.C.hi))
  IN TLCEval([j \in 1..n |->
       CASE e.f = "fill" -> Scal(e.x, cx)
         [] e.f = "zero" -> IF cx = 1 THEN <<0, 0>> ELSE 0
         [] e.f = "addc" -> Plus(c[j], Scal(e.x, cx), cx)
         [] e.f = "scale" -> Fac(e.al, c[j], cx)
         [] e.f = "abs" -> AbsV(c[j], cx)
         [] e.f = "recip" -> Recip1(c[j], e.D, cx)
         [] e.f = "copy" -> x[j]
         [] e.f = "add" -> Plus(Fac(e.al, x[j], cx), Fac(e.be, y[j], cx), cx)
         [] e.f = "mul" -> Times(x[j], y[j], e.D, cx)
         [] e.f = "div" -> Over(x[j], y[j], e.D, cx)
         [] e.f = "max" -> MaxV(x[j], y[j], cx)
         [] e.f = "min" -> MinV(x[j], y[j], cx)
         [] e.f = "median" -> MedV(x[j], y[j], z[j], cx)])
ElemData(e) == PutVals(arr[e.C.a].data, Elems(e.C, e.cx, 0), NewVals(e), e.cx)

(* ---- operations that return numbers (k elements of the array stand for one here) *)
Dot(e) == LET x == Vals(e.A, e.cx, e.tr)  y == Vals(e.B, e.cx, 0)
          IN IF e.cx = 1 THEN LET t == FoldLeftDomain(LAMBDA s, j : Plus(s, Fac(x[j], y[j], 1), 1), <<0, 0>>, x) IN <<e.k * t[1], e.k * t[2]>>
                         ELSE <<e.k * FoldLeftDomain(LAMBDA s, j : s + x[j] * y[j], 0, x)>>
Infinite == -1
LeastOf(S) == IF S = {} THEN Infinite ELSE CHOOSE m \in S : \A x \in S : m <= x
\* the largest step h so that A + h*B stays non-negative (A is)
StepMax(e) == LET x == Vals(e.A, 0, 0)  y == Vals(e.B, 0, 0)
              IN IF e.A.a = e.B.a THEN <<Infinite>>
                 ELSE <<LeastOf({TDiv(x[j] * e.D, Mag(y[j])) : j \in {i \in DOMAIN x : y[i] < 0}})>>
\* steps from x along v to the bounds l <= x <= u: smallest and largest over the elements
Bounds(e) ==
  LET x == Vals(e.A, 0, 0)  v == Vals(e.B, 0, 0)  l == Vals(e.M, 0, 0)  u == Vals(e.U, 0, 0)
      \* where v is zero: no bound, but zero when the element is on a boundary
      up == {TDiv((u[j] - x[j]) * e.D, v[j]) : j \in {i \in DOMAIN x : v[i] > 0}}
      dn == {TDiv((x[j] - l[j]) * e.D, Mag(v[j])) : j \in {i \in DOMAIN x : v[i] < 0}}
      on == {i \in DOMAIN x : v[i] = 0 /\ (x[i] = u[i] \/ x[i] = l[i])}
      free == {i \in DOMAIN x : v[i] = 0} \ on
      fin == up \cup dn \cup (IF on = {} THEN {} ELSE {0})
      most == IF free # {} THEN Infinite ELSE CHOOSE m \in fin : \A y \in fin : y <= m
  IN <<LeastOf(fin), LeastOf(up \cup dn), most>>
ElemOK(e) == CASE e.op = "dot" -> e.v = Dot(e)
               [] e.op = "stepmax" -> e.v = StepMax(e)
               [] e.op = "bounds" -> e.v = Bounds(e)
=============================================================================
