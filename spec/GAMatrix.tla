------------------------------ MODULE GAMatrix ------------------------------
(* Matrix operations.  A matrix is a patch of an array with (at most) two    *)
(* dimensions longer than one; its elements are taken in row-major order.    *)
EXTENDS GAElem

MDims(a, cx) == LET d == EDims(a, cx) IN <<d[1], d[2]>>
At(v, cols, i, j) == v[(i - 1) * cols + j]
Zero(cx) == IF cx = 1 THEN <<0, 0>> ELSE 0
Mult(x, y, cx) == IF cx = 1 THEN <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>> ELSE x * y
SumOf(n, f(_), cx) == FoldLeft(LAMBDA s, l : Plus(s, f(l), cx), Zero(cx), [i \in 1..n |-> i])

\* alpha*op(A)*op(B) + beta*C, A as stored is m x k (ta = 0) or k x m; e.k of the inner sum count e.rep times
Gemm(e) ==
  LET cx == e.cx
      a == Vals(e.A, cx, 0)  b == Vals(e.B, cx, 0)  c == Vals(e.C, cx, 0)
      x(i, l) == IF e.ta = 0 THEN At(a, e.k, i, l) ELSE At(a, e.m, l, i)
      y(l, j) == IF e.tb = 0 THEN At(b, e.n, l, j) ELSE At(b, e.k, j, l)
      el(p) == LET i == (p - 1) \div e.n + 1
                   j == ((p - 1) % e.n) + 1
                   t(l) == Mult(x(i, l), y(l, j), cx)
                   s == SumOf(e.k, t, cx)
                   r == IF cx = 1 THEN <<e.rep * s[1], e.rep * s[2]>> ELSE e.rep * s
               IN Plus(Fac(e.al, r, cx), Fac(e.be, c[p], cx), cx)
  IN TLCEval([p \in 1..(e.m * e.n) |-> el(p)])

Whole(a, cx) == LET d == EDims(a, cx) IN [a |-> a, lo |-> [i \in DOMAIN d |-> 0], hi |-> [i \in DOMAIN d |-> d[i] - 1]]
AllVals(a, cx) == Vals(Whole(a, cx), cx, 0)
\* all elements of array e.c after the operation
NewMatrix(e) ==
  LET cx == e.cx
      d == MDims(e.c, cx)
      c == AllVals(e.c, cx)
      row(p) == (p - 1) \div d[2] + 1
      col(p) == ((p - 1) % d[2]) + 1
      v == IF "v" \in DOMAIN e THEN AllVals(e.v, cx) ELSE <<>>
  IN CASE e.f = "transpose" ->
            (LET a == AllVals(e.a, cx) IN TLCEval([p \in DOMAIN c |-> At(a, d[1], col(p), row(p))]))
       [] e.f = "symmetrize" ->
            (LET dd == EDims(e.c, cx)
                 k == Len(dd)
                 rest == Size(SubSeq(dd, 3, k))
                 twin(p) == LET q == (p - 1) \div rest  \* position in the first two dimensions
                                i == q \div dd[2]
                                j == q % dd[2]
                            IN (j * dd[2] + i) * rest + ((p - 1) % rest) + 1
             IN TLCEval([p \in DOMAIN c |-> (c[p] + c[twin(p)]) \div 2]))
       [] e.f = "setdiag" -> TLCEval([p \in DOMAIN c |-> IF row(p) = col(p) THEN v[row(p)] ELSE c[p]])
       [] e.f = "adddiag" -> TLCEval([p \in DOMAIN c |-> IF row(p) = col(p) THEN Plus(c[p], v[row(p)], cx) ELSE c[p]])
       [] e.f = "shiftdiag" -> TLCEval([p \in DOMAIN c |-> IF row(p) = col(p) THEN Plus(c[p], Scal(e.x, cx), cx) ELSE c[p]])
       [] e.f = "zerodiag" -> TLCEval([p \in DOMAIN c |-> IF row(p) = col(p) THEN Zero(cx) ELSE c[p]])
       [] e.f = "scalerows" -> TLCEval([p \in DOMAIN c |-> Mult(c[p], v[row(p)], cx)])
       [] e.f = "scalecols" -> TLCEval([p \in DOMAIN c |-> Mult(c[p], v[col(p)], cx)])
       \* the diagonal of e.v becomes the vector e.c
       [] e.f = "getdiag" -> (LET w == MDims(e.v, cx) IN TLCEval([p \in DOMAIN c |-> At(v, w[2], p, p)]))
       \* e.x was claimed to solve the linear systems
       [] e.f = "solve" -> e.x
\* every row of the claimed solution solves op(A) x = the same row of C
Solves(e) ==
  LET d == MDims(e.c, 0)
      n == d[2]
      a == AllVals(e.a, 0)  c == AllVals(e.c, 0)
      y(i, l) == IF e.ta = 0 THEN At(a, n, i, l) ELSE At(a, n, l, i)
  IN \A i \in 1..n, j \in 1..d[1] :
       FoldLeft(LAMBDA s, l : s + y(i, l) * At(e.x, n, j, l), 0, [l \in 1..n |-> l]) = At(c, n, j, i)

MatData(e) == IF e.f = "gemm" THEN PutVals(arr[e.C.a].data, Elems(e.C, e.cx, 0), Gemm(e), e.cx)
              ELSE PutVals(arr[e.c].data, [p \in 1..Size(EDims(e.c, e.cx)) |-> p], NewMatrix(e), e.cx)
MatTarget(e) == IF e.f = "gemm" THEN e.C.a ELSE e.c

\* entry-wise norms (the moduli of complex entries are integers)
Norm(e) ==
  LET v == AllVals(e.a, e.cx)
      s(x) == IF e.cx = 1 THEN AbsV(x, 1)[1] ELSE Mag(x)
  IN IF e.f = "norm1" THEN <<e.k * FoldLeft(LAMBDA t, x : t + s(x), 0, v)>>
     ELSE <<FoldLeft(LAMBDA t, x : IF s(x) > t THEN s(x) ELSE t, 0, v)>>
=============================================================================
