----------------------------- MODULE Trace_C14 -----------------------------
(***************************************************************************)
(* C14: photon-number and click moments from Wick's theorem (Moments.tla). *)
(***************************************************************************)
EXTENDS TraceBase, Moments
MV(e) == Nums(e.in.mu)
CV(e) == Nums(e.in.V)
HB(e) == Num(e.in.hbar)
Pw(N, S, k) == [i \in 1..N |-> IF i \in S THEN k ELSE 0]
NMean(mu, V, h, j) == NumberMoment(mu, V, h, Pw(NModes(V), {j}, 1))
NCov(mu, V, h, j, k) == (IF j = k THEN NumberMoment(mu, V, h, Pw(NModes(V), {j}, 2)) ELSE NumberMoment(mu, V, h, Pw(NModes(V), {j, k}, 1)))
                        -- (NMean(mu, V, h, j) ** NMean(mu, V, h, k))
T10 == Tiny(10)
(* magnitude of the terms of an ordered moment *)
AbsV(v) == [i \in 1..Len(v) |-> Abs(v[i])]
OMom(mu, V, h, s, r) == LET W == WickMat(V, h, s) g == WickVec(mu, h)
                        IN [v |-> RepHaf(W, g, r), m |-> One ++ RepHaf(AbsMat(W), AbsV(g), r)]
Bound(mu, V, h, pw) == (* the same sum with moduli *)
  LET W == AbsMat(WickMat(V, h, One)) g == AbsV(WickVec(mu, h))
      N == Len(pw)
      Ks == {k \in [1..N -> 0..MaxI(pw)] : \A i \in 1..N : k[i] <= pw[i]}
  IN One ++ SumF([k \in Ks |-> ProdF([i \in 1..N |-> Num(Stirling(pw[i], k[i]))]) ** RepHaf(W, g, k \o k)])
PowOf(e) == Nums(e.in.p)
Judge(e) ==
  CASE e.op = "photon_number_mean" -> LET w == NMean(MV(e), CV(e), HB(e), e.in.j + 1) IN ScalarNear(e, w, T10 ** (One ++ Abs(w)), e.op)
    [] e.op = "photon_number_mean_vector" ->
         LET N == Len(e.in.V) \div 2 w == Vec(N, LAMBDA j : NMean(MV(e), CV(e), HB(e), j)) IN ArrayVNear(e, w, T10 ** (One ++ MaxAbs(w)), e.op)
    [] e.op = "photon_number_covar" -> LET w == NCov(MV(e), CV(e), HB(e), e.in.j + 1, e.in.k + 1) IN ScalarNear(e, w, T10 ** (One ++ Abs(w) ++ Pow(MaxAbs(CV(e)) ++ MaxAbs(MV(e)), 2)), e.op)
    [] e.op = "photon_number_covmat" ->
         LET N == Len(e.in.V) \div 2 w == Mat(N, N, LAMBDA j, k : NCov(MV(e), CV(e), HB(e), j, k)) IN ArrayMNear(e, w, T10 ** (One ++ MaxAbs(w) ++ Pow(MaxAbs(CV(e)) ++ MaxAbs(MV(e)), 2)), e.op)
    [] e.op \in {"photon_number_expectation", "photon_number_squared_expectation"} ->
         LET N == Len(e.in.V) \div 2
             S == {e.in.m[i] + 1 : i \in 1..Len(e.in.m)}
             pw == Pw(N, S, IF e.op = "photon_number_expectation" THEN 1 ELSE 2)
         IN ScalarNear(e, NumberMoment(MV(e), CV(e), HB(e), pw), Tiny(9) ** Bound(MV(e), CV(e), HB(e), pw), e.op \o " of modes " \o ToString(e.in.m))
    [] e.op = "photon_number_moment" ->
         LET pw == [i \in 1..Len(e.in.p) |-> IF e.in.p[i] = 9 THEN 0 ELSE e.in.p[i]]
         IN ScalarNear(e, NumberMoment(MV(e), CV(e), HB(e), pw), Tiny(9) ** Bound(MV(e), CV(e), HB(e), pw), e.op \o " of powers " \o ToString(e.in.p))
    [] e.op \in {"s_ordered_expectation", "normal_ordered_expectation"} ->
         LET w == OMom(MV(e), CV(e), HB(e), Num(e.in.s), e.in.r)
         IN ScalarNear(e, w.v, Tiny(9) ** w.m, e.op \o " " \o ToString(e.in.r))
    [] e.op = "mean_clicks" ->
         LET V == CV(e) N == NModes(V) z == ZeroVec(2 * N)
             w == SumF([j \in 1..N |-> One -- VacOn(z, V, HB(e), <<j>>)])
         IN ScalarNear(e, w, T10 ** Num(N), e.op)
    [] e.op = "variance_clicks" ->
         LET V == CV(e) N == NModes(V) z == ZeroVec(2 * N)
             p == TLCEval([j \in 1..N |-> VacOn(z, V, HB(e), <<j>>)])
             w == SumF([x \in (1..N) \X (1..N) |->
                    (IF x[1] = x[2] THEN p[x[1]] ELSE VacOn(z, V, HB(e), <<x[1], x[2]>>)) -- (p[x[1]] ** p[x[2]])])
         IN ScalarNear(e, w, T10 ** Num(N * N), e.op)
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
