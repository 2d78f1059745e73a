----------------------------- MODULE Trace_C04 -----------------------------
(***************************************************************************)
(* C04: every entry of a batched hafnian / Hermite tensor.                 *)
(* The entry at multi-index k of the (modified) Hermite tensor of (R, y)   *)
(* is C times the coefficient  k! [t^k] exp(y.t - t R t / 2), which is the *)
(* repeated loop hafnian of -R with diagonal y.                            *)
(***************************************************************************)
EXTENDS TraceBase, Hafnians
FactProd(k) == ProdF([i \in 1..Len(k) |-> FactQ(k[i])])
(* flattened expected tensor *)
Table(A, y, cut, C, renorm) ==
  LET T == RepHafTable(A, y, cut) IN
  TLCEval([q \in 1..Len(T) |->
    LET v == C ** T[q] IN IF renorm THEN v // Sqrt(FactProd(Unravel(q - 1, cut))) ELSE v])
YOf(e, R) == LET y == Nums(e.in.y) IN
             CASE e.in.ymode = "none" -> ZeroVec(Len(R))
               [] e.in.ymode = "modified" -> y
               [] OTHER -> MVec(R, y)
NegM(A) == MScale(Num(-1), A)
JudgeTensor(e) ==
  LET R == Nums(e.in.R)
      cut == e.in.cut
      n == Len(R)
      y == YOf(e, R)
      A == IF e.op = "batched" THEN R ELSE NegM(R)
      C == Num(e.in.C)
      want == Table(A, y, cut, C, e.in.renorm)
      scale == Table(AbsMat(A), Vec(n, LAMBDA i : Abs(y[i])), cut, Abs(C) ++ Tiny(3), e.in.renorm)
      shp == IF e.in.tensor THEN cut ELSE <<BoxSize(cut)>>
  IN Then(Returned(e),
     Then(IF e.out.shape = <<2>> THEN {} ELSE {"output"},
     Then(IF e.out.v[1].v = shp THEN {} ELSE {"tensor shape " \o ToString(e.out.v[1].v) \o " expected " \o ToString(shp)},
          LET g == Nums(e.out.v[2].v)
              b == {q \in 1..Len(want) : ~Within(g[q], want[q], EpsOf(e.in.dt) ** (scale[q] ++ Tiny(4)))}
          IN IF b = {} THEN {}
             ELSE LET q == CHOOSE q \in b : \A p \in b : q <= p
                  IN {e.op \o " entry " \o ToString(Unravel(q - 1, cut)) \o ": code " \o Show(g[q]) \o " spec " \o Show(want[q])})))
(* gradients: out = <<dC, dy, dR>> flattened, dR already summed over the symmetric pair *)
JudgeGrad(e) ==
  LET R == Nums(e.in.R)
      cut == e.in.cut
      n == Len(R)
      y == Nums(e.in.y)
      C == Num(e.in.C)
      N == BoxSize(cut)
      A == NegM(R)
      Rn(k, v) == IF e.in.renorm THEN v // Sqrt(FactProd(k)) ELSE v
      H(k) == IF \E i \in 1..n : k[i] < 0 THEN Zero ELSE RepHaf(A, y, k)
      d(k, i) == [k EXCEPT ![i] = @ - 1]
      dC == [q \in 1..N |-> LET k == Unravel(q - 1, cut) IN Rn(k, H(k))]
      dy == [q \in 1..N |-> [i \in 1..n |-> LET k == Unravel(q - 1, cut) IN Rn(k, C ** Num(k[i]) ** H(d(k, i)))]]
      dR == [q \in 1..N |-> [i \in 1..n |-> [j \in 1..n |->
               LET k == Unravel(q - 1, cut) IN
               Rn(k, Neg(C) ** (IF i = j THEN Num(k[i] * (k[i] - 1)) // Two ELSE Num(k[i] * k[j]))
                     ** H(d(d(k, i), j)))]]]
      tol == EpsOf(e.in.dt) ** (MaxAbs(dC) ++ MaxAbs(dy) ++ MaxAbs(dR) ++ One)
      o == e.out.v
  IN Then(Returned(e),
       LET gC == Nums(o[1].v) gy == Nums(o[2].v) gR == Nums(o[3].v) IN
       VNear(gC, dC, tol, "gradient in C") \cup MNear(gy, dy, tol, "gradient in y")
       \cup UNION {MNear(gR[q], dR[q], tol, "gradient in R, entry " \o ToString(Unravel(q - 1, cut))) : q \in 1..N})
Judge(e) == IF e.op = "grad" THEN JudgeGrad(e) ELSE JudgeTensor(e)
TraceNext == TraceStep(Judge)
=============================================================================
