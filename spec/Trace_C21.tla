----------------------------- MODULE Trace_C21 -----------------------------
(***************************************************************************)
(* C21: graph encodings, and the classical, thermal, rank-one and table    *)
(* samplers.                                                               *)
(***************************************************************************)
EXTENDS TraceBase, Graphs, Samplers
A(e) == Nums(e.in.A)
T(e) == Num(e.in.t)
(* the root finders stop at an absolute accuracy of 2e-12 in c *)
Slack(c) == (c ** Tiny(9)) ++ (Num(5) ** Tiny(12))
Shown(F(_, _), a, c) == IF Encodable(a, c) THEN Show(F(a, c)) ELSE "not encodable"
BoxOf(n, c) == [i \in 1..n |-> c]
(* statistics of N draws *)
Stat(p, N) == (Num(7) ** Sqrt(p // Num(N))) ++ Frac(25, N)
Freq(e, cuts, P(_)) ==
  Then(Array(e, <<BoxSize(cuts)>>),
    UNION {LET n == Unravel(i - 1, cuts) p == P(n) IN Near(Num(e.out.v[i]), p, Stat(p, e.in.draws), "frequency of the sample " \o ToString(n)) : i \in 1..BoxSize(cuts)})
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
RECURSIVE FirstBad(_, _, _, _)
FirstBad(e, Want(_, _), o, t) ==
  IF t > Len(e.in.path) THEN <<t, {}>>
  ELSE LET v == VNear(Nums(e.out.v[t].v), Want(o, t), Tiny(7), "conditional probabilities of draw " \o ToString(t))
       IN IF v = {} THEN FirstBad(e, Want, o, t + 1) ELSE <<t, v>>
Explained(e, orders, Want(_, _)) ==
  IF orders = {} THEN {"the returned sample is not the drawn outcomes in any order"}
  ELSE LET r == TLCEval([o \in orders |-> FirstBad(e, Want, o, 1)])
           best == CHOOSE o \in orders : \A q \in orders : r[q][1] <= r[o][1]
       IN r[best][2]
OrdersH(e) == {p \in Perms(Len(e.in.sample)) : \A t \in 1..Len(p) : e.in.sample[p[t]] = e.in.path[t]}
OrdersT(e) == LET c == Cfgs(1, 1, e.in.path, e.in.f) IN
  {p \in Perms(Len(e.in.sample)) : \A k \in 1..Len(p) : (e.in.sample[p[k]] = 1) <=> \E t \in 1..Len(c) : c[t][1] = k /\ e.in.path[t] > 0}
GraphK(e) == LET n == Len(A(e)) IN [B |-> MScale(Num(e.in.c), A(e)), g |-> ZeroVec(n), al |-> ZeroVec(n)]
ScaleReq(e, c) == Req(ScaleOk(Photons, A(e), c, T(e), Slack(c)), "scaling " \o Show(c) \o " encodes " \o Shown(Photons, A(e), c) \o " photons instead of " \o Show(T(e)))
(* table sampler: the distribution handed to the random choice, and the labels *)
TableProbs(e) ==
  LET p == Nums(e.in.p) s == SumF(p) IN
  IF e.in.oob = "no" THEN Vec(Len(p), LAMBDA i : p[i] // s) ELSE Vec(Len(p) + 1, LAMBDA i : IF i <= Len(p) THEN p[i] ELSE One -- s)
Judge(e) ==
  CASE e.op = "adj_scaling" -> Then(Scalar(e), LET c == Num(e.out.v) IN ScaleReq(e, c))
    [] e.op = "adj_scaling_torontonian" -> Then(Scalar(e), LET c == Num(e.out.v) IN
         Req(ScaleOk(MeanClicks, A(e), c, T(e), Slack(c)), "scaling " \o Show(c) \o " gives " \o Shown(MeanClicks, A(e), c) \o " clicks instead of " \o Show(T(e))))
    [] e.op = "unattainable" ->   (* isolated vertices never click *)
        LET z == Cardinality({i \in 1..Len(A(e)) : \A j \in 1..Len(A(e)) : A(e)[i][j] = Zero}) IN
        IF Lt(Num(Len(A(e)) - z), T(e)) THEN Raised(e, {"ValueError"}) ELSE {"the scenario is attainable"}
    [] e.op = "adj_to_qmat" ->
        LET n == Len(A(e)) IN
        Then(Array(e, <<2 * n, 2 * n>>),
          LET Q == Nums(e.out.v)
              P == MSub(Ident(2 * n), MRound(Inverse(Q), Prec))
              B == Mat(n, n, LAMBDA i, j : P[i + n][j])     (* X P, upper left *)
              c == Ratio(B, A(e))
              tol == Tiny(11) ** (MaxAbs(Q) ++ One) ** (MaxAbs(Q) ++ One)
          IN Req(MWithin(MMul(Xmat(n), P), DirectConj(MScale(Re(c), A(e))), tol), "Q is not (1 - X cA)^-1")
             \cup Near(Im(c), Zero, tol, "imaginary scaling")
             \cup Near(PhotonsQ(Q), T(e), (Tiny(9) ++ Tiny(8)) ** (T(e) ++ One) ** (T(e) ++ One), "mean photon number"))
    [] e.op = "rescale" ->
        LET n == Len(A(e)) IN
        Then(Returned(e), Then(Req(Len(e.out.v) = 2 /\ e.out.v[1].shape = <<n>> /\ e.out.v[2].shape = <<n, n>>, "wrong shapes"),
          LET ls == Nums(e.out.v[1].v) O == Nums(e.out.v[2].v) s == Num(e.in.s)
              B == MMul(MMul(O, DiagMat(ls)), MT(O)) c == Ratio(B, A(e)) IN
          Req(MWithin(MMul(MT(O), O), Ident(n), Tiny(10)), "the basis is not orthogonal")
          \cup Req(\A i \in 1..n : Leq(Zero, ls[i]) /\ Lt(s ** ls[i], One), "rate outside [0, 1)")
          \cup Req(MWithin(B, MScale(c, A(e)), c ** (Num(3) ** Tiny(8))), "O diag(l) O^T is not a multiple of A")
          \cup Req(ThermalScaleOk(A(e), s ** c, T(e), s ** c ** Tiny(6)), "mean photon number")
          \cup Near(SumF([i \in 1..n |-> (s ** ls[i]) // (One -- (s ** ls[i]))]), T(e), Tiny(6) ** (One ++ (T(e) ** T(e))), "mean photon number of the rates")))
    [] e.op = "steps_h" ->
        Then(Returned(e), Then(ScaleReq(e, Num(e.in.c)),
          LET k == GraphK(e) IN Explained(e, OrdersH(e), LAMBDA o, t : StepProbsH(k, o, e.in.path, t, e.in.cut))))
    [] e.op = "steps_t" ->
        Then(Returned(e), Then(ScaleReq(e, Num(e.in.c)),
          LET k == GraphK(e) IN Explained(e, OrdersT(e), LAMBDA o, t : StepProbsT(k, o, e.in.path, t, e.in.f, e.in.cut))))
    [] e.op = "pns_probs" ->
        Then(Returned(e), UNION {Then(Req(e.out.v[i].shape = <<Len(TableProbs(e))>>, "the table of probabilities has a wrong size"),
                                  VNear(Nums(e.out.v[i].v), TableProbs(e), Tiny(12), "probability of entry")) : i \in 1..Len(e.out.v)})
    [] e.op = "pns_labels" ->
        Then(Returned(e), Then(Req(Len(e.out.v) = Len(e.in.idx), "wrong number of samples"),
          UNION {LET k == e.in.idx[i] o == e.out.v[i] IN
                 IF k = Len(e.in.p) THEN Req(e.in.oob # "no" /\ o.v = e.in.mark, "a draw beyond the table is not marked")
                 ELSE Req(o.v = Unravel(k, BoxOf(e.in.n, e.in.cutoff)), "entry " \o ToString(k) \o " of the table returned as another pattern") : i \in 1..Len(e.in.idx)}))
    [] e.op = "pns_point" -> Then(Returned(e), Req(Len(e.out.v) = e.in.N, "wrong number of samples") \cup Req(\A i \in 1..Len(e.out.v) : e.out.v[i].v = e.in.at, "a sample of probability zero"))
    [] e.op = "pns_law" -> Freq(e, <<Len(TableProbs(e))>>, LAMBDA n : TableProbs(e)[n[1] + 1])
    [] e.op = "law_h" ->
        LET mu == Nums(e.in.mu) V == Nums(e.in.V) h == Num(e.in.hbar) a == KernelA(V, h) g == KernelG(mu, V, h) v == VacProb(mu, V, h)
        IN Freq(e, BoxOf(NModes(V), e.in.cut), LAMBDA n : Re(ElementOf(a, g, v, n, n)))
    [] e.op = "law_t" ->
        LET cl == Clicks(Nums(e.in.mu), Nums(e.in.V), Num(e.in.hbar))
        IN Freq(e, BoxOf(Len(e.in.V) \div 2, 2), LAMBDA d : cl[{i \in 1..Len(d) : d[i] = 1}])
    [] e.op = "law_rankone" -> LET G == Nums(e.in.G) IN Freq(e, BoxOf(Len(G), e.in.cut), LAMBDA n : RankOneLaw(G, Num(e.in.t), n))
    [] e.op = "rates" ->
        (* Poisson rates as quadratic forms of the internal normals: the law of
           the counts is thermal light with <a_i^* a_j> = (O nbar O^T)_ij *)
        Then(Returned(e),
          LET n == Len(e.in.ls) m == Len(e.out.v[1].v)
              ls == Nums(e.in.ls) O == Nums(e.in.O)
              nb == Vec(n, LAMBDA j : ls[j] // (One -- ls[j]))
              N == MMul(MMul(O, DiagMat(nb)), MT(O))
              (* out.v[i] is the matrix of the i-th form *)
              q == [i \in 1..n |-> Nums(e.out.v[i].v)]
              TQ(s) == Mat(m, m, LAMBDA a, b : SumF([i \in 1..n |-> Frac(s[i], 3) ** q[i][a][b]]))
              TN(s) == Mat(n, n, LAMBDA a, b : Frac(s[a], 3) ** N[a][b])
          IN UNION {Near(Sqrt(Det(MAdd(Ident(m), MScale(Two, TQ(s))))), Det(MAdd(Ident(n), TN(s))), Tiny(8) ** (One ++ Abs(Det(MAdd(Ident(n), TN(s))))), "generating function at " \o ToString(s))
                    : s \in [1..n -> 0..2]})
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
