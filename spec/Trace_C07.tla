----------------------------- MODULE Trace_C07 -----------------------------
(* C07: (loop) torontonians as inclusion-exclusion sums; click probabilities from the Husimi function. *)
EXTENDS TraceBase, Gaussian
Pairs(Z, N) == Z \o [k \in 1..Len(Z) |-> Z[k] + N]
TorTerms(O, g) ==
  LET N == Len(O) \div 2 IN
  TLCEval([S \in SUBSET (1..N) |->
    LET ix == Pairs(SetSeq(S), N)
        B == MSub(Ident(Len(ix)), SubM(O, ix))
        gs == SubV(g, ix)
        ex == Half ** Dot(gs, MVec(MRound(Inverse(B), Prec), VConj(gs)))
    IN IF S = {} THEN Sgn(N) ELSE Sgn(N - Cardinality(S)) ** (Exp(ex) // Sqrt(Re(Det(B))))])
Judge(e) ==
  CASE e.op \in {"tor", "ltor"} ->
        LET O == Nums(e.in.O)
            g == IF e.op = "tor" THEN ZeroVec(Len(O)) ELSE Nums(e.in.g)
            t == TorTerms(O, g)
            scale == SumF([S \in DOMAIN t |-> Abs(t[S])])
        IN ScalarNear(e, SumF(t), Tiny(8) ** scale ** (One ++ NormBound(Inverse(MSub(Ident(Len(O)), O)))), e.op \o (IF e.in.rec THEN " (recursive)" ELSE " (direct)") \o " is not the inclusion-exclusion sum")
    [] e.op = "threshold" ->
        LET mu == Nums(e.in.mu)
            V == Nums(e.in.V)
            h == Num(e.in.hbar)
            N == NModes(V)
            pat == e.in.patterns
            cl == Clicks(mu, V, h)
            p == Nums(e.out.v)
        IN Then(Array(e, <<Len(pat)>>),
           UNION {Near(p[i], cl[{k \in 1..N : pat[i][k] = 1}], Tiny(8), "threshold_detection_prob of " \o ToString(pat[i])) : i \in 1..Len(pat)}
           \cup Near(SumF(p), One, Tiny(7), "click probabilities do not sum to one")
           \cup Req(\A i \in 1..Len(pat) : Leq(Neg(Tiny(8)), Re(p[i])), "negative click probability"))
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
