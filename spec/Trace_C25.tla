----------------------------- MODULE Trace_C25 -----------------------------
(***************************************************************************)
(* C25: total photon numbers, distinguishable squeezers, grouped clicks.   *)
(***************************************************************************)
EXTENDS TraceBase, TotalPhotons
Pr(e) == [k |-> e.in.k, s |-> Num(e.in.s), eta |-> Num(e.in.eta)]
Rel(x, w, floor) == (x ** Abs(w)) ++ floor
VRel(got, want, rel, floor, name) == UNION {Near(got[i], want[i], Rel(rel, want[i], floor), name \o " [" \o ToString(i) \o "]") : i \in 1..Len(want)}
SqrtN(x) == Sqrt(Max2(Re(x), Zero))
Judge(e) ==
  CASE e.op = "total" ->
        LET p == Pr(e) d == LossySqueezers(p.k, p.s, p.eta, e.in.top) IN
        Then(Array(e, <<e.in.top + 1>>), VRel(Nums(e.out.v), [n \in 1..(e.in.top + 1) |-> d[n] ** Pow(Num(e.in.pref), n - 1)], Tiny(8), Tiny(60), "probability of n photons"))
    [] e.op = "totaln" ->
        LET p == Pr(e) d == LossySqueezers(p.k, p.s, p.eta, MaxI(e.in.ns)) IN
        Then(Array(e, <<Len(e.in.ns)>>), VRel(Nums(e.out.v), [i \in 1..Len(e.in.ns) |-> d[e.in.ns[i] + 1]], Tiny(8), Tiny(60), "probability of n photons (large n)"))
    [] e.op = "char" ->
        LET p == Pr(e) mu == Num(e.in.mu) m == e.in.m
            w == GenMoment(p.k, p.s, p.eta, mu, m)
            r == Exp(mu) ** TailRatio(p.s, p.eta)
            tol == Tiny(9) ++ ((Num(200) ** Num(e.in.delta)) // ((One -- r) ** (One -- r)))
        IN ScalarNear(e, w, tol ** Abs(w), "moment of the characteristic function")
    [] e.op = "charcut" ->
        LET p == Pr(e) w == PartialMoment(p.k, p.s, p.eta, Num(e.in.mu), e.in.m, e.in.it) IN
        ScalarNear(e, w, Rel(Tiny(9), w, Tiny(12)), "sum of the first max_iter terms")
    [] e.op = "pure" ->
        LET V == Nums(e.in.V) d == TotalDist(V, Num(e.in.hbar), e.in.cut - 1) b == NormBound(Unit1(V, Num(e.in.hbar))) IN
        Then(Array(e, <<e.in.cut>>), VNear(Nums(e.out.v), d, Tiny(11) ** b ** b, "probability of n photons"))
    [] e.op = "impure" -> Raised(e, {"ValueError"})
    [] e.op = "means" ->
        LET w == MeansOf(Nums(e.in.T), Nums(e.in.rs)) IN Then(Array(e, <<Len(w)>>), VNear(Nums(e.out.v), w, Tiny(11) ** (One ++ SumF(w)), "mean photon number"))
    [] e.op = "cov" ->
        LET w == CovOf(Nums(e.in.T), Nums(e.in.rs)) IN Then(Array(e, <<Len(w), Len(w)>>), MNear(Nums(e.out.v), w, Tiny(11) ** (One ++ NormBound(w)), "photon-number covariance"))
    [] e.op = "sample" ->
        Then(Returned(e),
          LET T == Nums(e.in.T) N == e.in.N m == Rows(T)
              d == Distinguishable(T, Nums(e.in.rs), e.in.c)
              u == e.out.v[3].v k == e.out.v[4].v
              cnt(x) == LET S == {i \in 1..Len(u) : u[i] = x} IN IF S = {} THEN 0 ELSE k[CHOOSE i \in S : TRUE]
              Off(x) == LET p == d[x] IN ~Within(Num(cnt(x)), Num(N) ** p, Num(14) ++ (Num(7) ** SqrtN(Num(N) ** p ** (One -- p))))
          IN Req(e.out.v[1].v = <<N, m>>, "shape of the samples")
             \cup Req(e.out.v[2].v[1] = 1, "samples are not integers")
             \cup Then(Req(\A i \in 1..Len(u) : u[i] \in DOMAIN d, "impossible pattern"),
                       Req(\A x \in DOMAIN d : ~Off(x), "pattern frequencies do not follow the distribution")))
    [] e.op = "clicks" ->
        Then(Returned(e),
          LET w == ClickNumbers(MRound(OutputCov(Nums(e.in.T), Nums(e.in.ph), Nums(e.in.ch)), Prec))
              p == Nums(e.out.v[1].v) er == Nums(e.out.v[2].v) sg == Sqrt(Num(e.in.ng))
          IN Then(Req(Len(e.out.v) = 2 /\ Len(p) = Len(w) /\ Len(er) = Len(w), "shape of the result"),
             Req(\A i \in 1..Len(er) : IsRealNum(er[i]) /\ Leq(Zero, er[i]), "an error is not a non-negative number")
             \cup Near(SumF([i \in 1..Len(p) |-> p[i]]), One, Tiny(8), "sum of the probabilities")
             \cup UNION {Near(p[i], w[i], ((Num(8) ** er[i]) // sg) ++ Tiny(9), "probability of k clicks [" \o ToString(i) \o "]") : i \in 1..Len(w)}))
    [] e.op = "repeat" -> Then(Returned(e), Req(e.out.v[1].v = e.out.v[2].v, "same seed, different results") \cup Req(e.out.v[1].v # e.out.v[3].v, "the seed has no effect"))
    [] e.op = "sums" ->
        Then(Returned(e),
          LET p == Nums(e.out.v[1].v) er == Nums(e.out.v[2].v) n == e.in.m + 1 IN
          Then(Req(Len(e.out.v) = 2 /\ Len(p) = n /\ Len(er) = n, "shape of the result"),
             Req(\A i \in 1..n : IsRealNum(er[i]) /\ Leq(Zero, er[i]), "an error is not a non-negative number")
             \cup Req(e.in.ng > 1 \/ \A i \in 1..n : IsNum(er[i]) /\ Leq(er[i], Tiny(7)), "one group has no scatter")
             \cup Near(SumF([i \in 1..n |-> p[i]]), One, Tiny(8), "sum of the probabilities")
             \cup (IF e.in.vac = 1 THEN Near(p[1], One, Tiny(9), "vacuum does not click") ELSE {})))
    [] e.op = "scatter" ->
        LET n == e.in.m + 1 IN
        Then(Array(e, <<n>>), LET g == Nums(e.out.v) s == Nums(e.in.std) IN
             UNION {Near(g[i], s[i], (Frac(2, 5) ** s[i]) ++ Tiny(9), "reported error against the scatter of group averages") : i \in 1..n})
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
