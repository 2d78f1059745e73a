----------------------------- MODULE Trace_C02 -----------------------------
(* C02: repeated hafnian = hafnian of the expanded matrix. *)
EXTENDS TraceBase, Hafnians
Judge(e) ==
  LET A == Nums(e.in.A)
      rpt == e.in.rpt
      ix == RepIdx(rpt)
  IN IF e.op = "reduction"
     THEN IF e.in.vec THEN ArrayVNear(e, SubV(Nums(e.in.mu), ix), Zero, "reduction of a vector")
          ELSE Then(Array(e, <<Len(ix), Len(ix)>>), IF ix = <<>> THEN {} ELSE MNear(Nums(e.out.v), SubM(A, ix), Zero, "reduction of a matrix"))
     ELSE LET D == IF e.in.loop THEN Nums(e.in.D) ELSE ZeroVec(Len(A))
              want == RepHaf(A, D, rpt)
              mD == MaxAbs(D)
              m == Max2(MaxAbs(A), mD ** mD)
              scale == RepHaf(AbsMat(A), Vec(Len(D), LAMBDA i : Abs(D[i])), rpt)
                       ++ (DoubleFact(Total(rpt)) ** Pow(m, Total(rpt) \div 2) ** Max2(mD, One) ** Tiny(3))
          IN ScalarNear(e, want, EpsOf(e.in.dt) ** (IF Total(rpt) > 14 /\ ~e.in.glynn THEN Num(10000) ELSE One) ** scale, e.op \o " is not the hafnian of the expanded matrix")
TraceNext == TraceStep(Judge)
=============================================================================
