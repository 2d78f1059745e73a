----------------------------- MODULE Trace_C09 -----------------------------
(* C09: montrealers, photon-number and click cumulants. *)
EXTENDS TraceBase, Montrealer, Moments
Count(s, B, i) == Cardinality({k \in B : s[k] = i})
Judge(e) ==
  CASE e.op = "mtl" ->
        LET A == Nums(e.in.A) n == Len(A) \div 2
            want == ByWalk(A, e.in.loop)
            b == NormBound(A) ++ MaxAbs(A)
        IN ScalarNear(e, want, Tiny(9) ** Pow(Two ** b, n) ** Pow(One ++ b, IF e.in.loop THEN 1 ELSE 0), e.in.fn \o " is not the sum over connected matchings")
    [] e.op = "photon" ->
        LET mu == Nums(e.in.mu) V == Nums(e.in.V) h == Num(e.in.hbar) N == NModes(V)
            s == e.in.modes
            M(B) == NumberMoment(mu, V, h, [i \in 1..N |-> Count(s, B, i - 1)])
            t == CumulantTerms(1..Len(s), M)
            scale == SumF([P \in DOMAIN t |-> Abs(t[P])])
        IN ScalarNear(e, SumF(t), Tiny(8) ** (scale ++ One), "photon_number_cumulant")
    [] e.op = "click" ->
        LET mu == Nums(e.in.mu) V == Nums(e.in.V) h == Num(e.in.hbar) N == NModes(V)
            s == e.in.modes
            M(B) == LET Z == {s[k] + 1 : k \in B} q == SetSeq(Z)
                    IN ClickProb(RedMu(mu, q), RedV(V, q), h, [i \in 1..Len(q) |-> 1])
            t == CumulantTerms(1..Len(s), M)
        IN ScalarNear(e, SumF(t), Tiny(8) ** (SumF([P \in DOMAIN t |-> Abs(t[P])]) ++ One), "click_cumulant")
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
