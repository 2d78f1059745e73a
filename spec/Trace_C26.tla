----------------------------- MODULE Trace_C26 -----------------------------
(***************************************************************************)
(* C26: random generators.                                                 *)
(***************************************************************************)
EXTENDS TraceBase, RandomClasses
Tol == Tiny(10)
Uni(e, U) == Req(IsUnitary(U, e.in.n, Tol), "not a unitary matrix") \cup Req(e.in.real = 0 \/ IsRealMat(U), "not real")
Norm2(S) == LET b == One ++ NormBound(S) IN b ** b
Judge(e) ==
  CASE e.op = "interferometer" -> Then(Array(e, <<e.in.n, e.in.n>>), Uni(e, Nums(e.out.v)))
    [] e.op = "symplectic" ->
        Then(Array(e, <<2 * e.in.n, 2 * e.in.n>>),
          LET S == Nums(e.out.v) tol == Tiny(12) ** Norm2(S) IN
          Req(AllNum(S) /\ IsRealMat(S) /\ IsSymplecticTo(S, tol), "not symplectic")
          \cup Req((e.in.passive = 0 /\ Num(e.in.scale) # Zero) \/ MWithin(MMul(S, MT(S)), Ident(2 * e.in.n), Tol), "passive transformation is not orthogonal")
          \cup Req(e.in.passive = 1 \/ Num(e.in.scale) = Zero \/ ~MWithin(MMul(S, MT(S)), Ident(2 * e.in.n), Tol), "active transformation without squeezing")
          \cup Req(e.in.block = 0 \/ BlockDiagonal(S), "not block diagonal"))
    [] e.op = "covariance" ->
        Then(Array(e, <<2 * e.in.n, 2 * e.in.n>>),
          LET V == Nums(e.out.v) h == Num(e.in.h) b == Tiny(12) ** Norm2(V) IN
          Then(Req(AllNum(V) /\ IsRealMat(V) /\ Leq(SymDev(V), b), "not a real symmetric matrix"),
               Req(GeV(WithOmega(V, h), b) = "yes", "not a valid covariance matrix")
               \cup Req(e.in.pure = 0 \/ Leq(PurityDev(V, h), Tiny(7)), "not pure")
               \cup Req(e.in.pure = 1 \/ Leq(Tiny(7), PurityDev(V, h)), "pure state although a mixed one was requested")
               \cup Req(e.in.block = 0 \/ BlockDiagonal(V), "not block diagonal")))
    [] e.op = "scaling" -> Then(Returned(e), LET a == Nums(e.out.v[1].v) b == Nums(e.out.v[2].v) IN
                               VNear(b, VScale(Num(e.in.f), a), Tiny(7), "squeezing parameters do not scale"))
    [] e.op = "covhbar" -> Then(Returned(e), LET A == Nums(e.out.v[1].v) B == Nums(e.out.v[2].v) IN
                               MNear(B, MScale(Num(e.in.h) // Two, A), Tiny(11) ** (One ++ NormBound(A)), "covariance is not proportional to hbar"))
    [] e.op = "block" ->
        Then(Array(e, <<e.in.n, e.in.n>>), LET U == Nums(e.out.v) IN
          Uni(e, U) \cup Req(NonZero(U, Zero) = LayerSupport(e.in.n, e.in.top = 1), "blocks are not where they should be"))
    [] e.op = "banded" ->
        IF e.in.n < e.in.w + 1 THEN Raised(e, {"ValueError"})
        ELSE Then(Array(e, <<e.in.n, e.in.n>>), LET U == Nums(e.out.v) s == NonZero(U, Tiny(13)) IN
          Uni(e, U)
          \cup (IF e.in.n = e.in.w + 1 THEN Req(s = (1..e.in.n) \X (1..e.in.n), "full interferometer has zero entries")
                ELSE Req(s \subseteq LayersSupport(e.in.n, e.in.w, e.in.top = 1), "an entry outside the light cone of the layers")
                     \cup Req(Bandwidth(s) = e.in.w, "bandwidth")))
    [] e.op = "same" -> Then(Returned(e), Req(e.out.v[1].v = e.out.v[2].v, "same seed, different matrix") \cup Req(e.out.v[1].v # e.out.v[3].v, "successive draws are equal"))
    [] e.op = "haar" ->
        Then(Returned(e),
          LET m == Nums(e.out.v[1].v) s == Nums(e.out.v[2].v) n == e.in.n re == e.in.real = 1
              want == <<Zero, Frac(1, n), IF re THEN Frac(3, n * (n + 2)) ELSE Frac(2, n * (n + 1)), Zero, One, IF re THEN Frac(1, n) ELSE Zero, Zero>>
                      \o (IF n = 1 THEN <<>> ELSE <<IF re THEN Frac(-1, (n - 1) * n * (n + 2)) ELSE Frac(-1, n * (n * n - 1)), Zero>>)
          IN UNION {Near(m[i], want[i], (Num(8) ** (s[i] // Sqrt(Num(e.in.K)))) ++ Tiny(10), "average " \o ToString(i) \o " of the Haar measure") : i \in 1..Len(want)})
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
