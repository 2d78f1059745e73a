----------------------------- MODULE Trace_C12 -----------------------------
(***************************************************************************)
(* C12: representations of a Gaussian state and their conversions.         *)
(***************************************************************************)
EXTENDS TraceBase, Predicates
(* covariance of (a, a^dag), antinormally ordered *)
QDef(V, h) == LET N == NMat(V, h) M == MMat(V, h)
              IN AddDiag(MBlock(N, MConj(M), M, MConj(N)), One)
AlphaBar(mu, h) == LET a == AlphaOf(mu, h) IN a \o VConj(a)
(* index (1-based) in xxpp of entry k of xpxp *)
XPXP(k, n) == IF k % 2 = 1 THEN (k + 1) \div 2 ELSE n + (k \div 2)
(* k-th entry of the xxpp vector sits at position Pos(k) of xpxp *)
Pos(k, n) == IF k <= n THEN 2 * k - 1 ELSE 2 * (k - n)
Exactly(got, want, name) == Req(got = want, name)
PermOut(e, ix(_, _)) ==
  LET a == Nums(e.in.a) m == Len(a) n == m \div 2 IN
  IF e.in.kind = "vec"
  THEN Then(Array(e, <<m>>), Exactly(Nums(e.out.v), [i \in 1..m |-> a[ix(i, n)]], e.op))
  ELSE Then(Array(e, <<m, m>>), Exactly(Nums(e.out.v), [i \in 1..m |-> [j \in 1..m |-> a[ix(i, n)][ix(j, n)]]], e.op))
Dev(A, B) == MaxAbs(MSub(A, B))
SympV(S) ==
  IF Rows(S) # Cols(S) \/ Rows(S) % 2 = 1 THEN "no"
  ELSE LET O == Omega(NModes(S)) d1 == Dev(MMul(MMul(S, O), MT(S)), O) d2 == Dev(MMul(MMul(MT(S), O), S), O)
           m == MaxAbs(S)
           big == Two ** (Tiny(8) ++ (Tiny(5) ** (One ++ (Num(Len(S)) ** (m ** m)))))
       IN IF Leq(d2, F9 ** Tiny(8)) THEN "yes" ELSE IF Leq(big, d2) THEN "no" ELSE "?"
Verdict(e, w) == Then(Returned(e), Req(w = "?" \/ e.out.v = (w = "yes"), e.op \o " returned " \o ToString(e.out.v) \o " although its definition says " \o w))
Scale(x) == Tiny(9) ** (One ++ MaxAbs(x))
Judge(e) ==
  CASE e.op = "Qmat" -> LET Q == QDef(Nums(e.in.V), Num(e.in.hbar)) IN ArrayMNear(e, Q, Tiny(11) ** (One ++ MaxAbs(Q)), "Qmat")
    [] e.op = "Covmat" -> LET V == Nums(e.in.V) IN ArrayMNear(e, V, Tiny(10) ** (MaxAbs(V) ++ Num(e.in.hbar)), "Covmat(Qmat(V))")
    [] e.op = "Amat" -> LET V == Nums(e.in.V) h == Num(e.in.hbar) A == MConj(KernelA(V, h)) IN ArrayMNear(e, A, Scale(V), "Amat")
    [] e.op = "AQ" -> (* X (1 - Q^-1)^* Q^* = X (Q - 1)^* *)
        LET Q == Nums(e.in.Q) n == Len(Q) \div 2 X == Xmat(n) IN
        Then(Array(e, <<Len(Q), Len(Q)>>), MNear(MMul(Nums(e.out.v), MConj(Q)), MMul(X, MConj(MSub(Q, Ident(2 * n)))), Scale(Q) ** (One ++ MaxAbs(Q)), "Amat(Q, cov_is_qmat) Q*"))
    [] e.op = "c2r" -> LET mu == Nums(e.in.mu) IN ArrayVNear(e, AlphaBar(mu, Num(e.in.hbar)), Tiny(12) ** (One ++ MaxAbs(mu)), "complex_to_real_displacements")
    [] e.op = "r2c" -> LET mu == Nums(e.in.mu) IN ArrayVNear(e, mu, Tiny(12) ** (One ++ MaxAbs(mu)), "real_to_complex_displacements")
    [] e.op = "mu_to_alpha" -> LET mu == Nums(e.in.mu) IN ArrayVNear(e, AlphaOf(mu, Num(e.in.hbar)), Tiny(12) ** (One ++ MaxAbs(mu)), "mu_to_alpha")
    [] e.op = "xxpp_to_xpxp" -> PermOut(e, XPXP)
    [] e.op = "xpxp_to_xxpp" -> PermOut(e, Pos)
    [] e.op = "reject" -> Raised(e, {"ValueError"})
    [] e.op = "sympmat" -> LET n == e.in.n O == Omega(n) IN Then(Array(e, <<2 * n, 2 * n>>), Req(Nums(e.out.v) = O, "sympmat"))
    [] e.op = "Xmat" -> LET n == e.in.n O == Xmat(n) IN Then(Array(e, <<2 * n, 2 * n>>), Req(Nums(e.out.v) = O, "Xmat"))
    [] e.op = "vacuum_state" -> LET n == e.in.n h == Num(e.in.hbar) IN
        ArrayMNear(e, <<ZeroVec(2 * n)>> \o MScale(h // Two, Ident(2 * n)), Tiny(14) ** h, "vacuum_state")
    [] e.op = "decompose_cov" ->
        LET V == Nums(e.in.V) h == Num(e.in.hbar) T == Nums(e.out.v[1].v) W == Nums(e.out.v[2].v)
            m == One ++ (MaxAbs(V) // h)
        IN Then(Returned(e),
             MNear(MAdd(T, MMul(W, MT(W))), V, (Tiny(7) ** h) ** (m ** m), "T + sqrtW sqrtW^T")
             \cup Req(Leq(Abs(Det(MScale(Two // h, T)) -- One), Tiny(6) ** Pow(m, Len(V))), "T is not the covariance of a pure state")
             \cup Req(PosDef(AddDiag(WithOmega(T, h), (Tiny(7) ** h) ** (m ** m))), "T is not a valid covariance"))
    [] e.op = "is_valid_cov" -> Verdict(e, ValidV(Nums(e.in.V), Num(e.in.hbar), Num(e.in.rtol), Num(e.in.atol)))
    [] e.op = "is_pure_cov" -> Verdict(e, PureV(Nums(e.in.V), Num(e.in.hbar), Num(e.in.rtol), Num(e.in.atol)))
    [] e.op = "is_classical_cov" -> Verdict(e, ClassV(Nums(e.in.V), Num(e.in.hbar), Num(e.in.atol)))
    [] e.op \in {"quantum.is_symplectic", "symplectic.is_symplectic"} -> Verdict(e, SympV(Nums(e.in.S)))
    [] e.op = "shape" -> Then(Returned(e), Req(e.out.v = FALSE, e.in.fn \o " accepted a matrix that is not even-dimensional and square"))
    [] e.op = "covary" ->
        LET a == Nums(e.out.v[1].v) b == Nums(e.out.v[2].v) IN
        Then(Returned(e), Then(Req(e.out.v[1].shape = e.out.v[2].shape, e.in.fn \o ": shape depends on hbar"),
             VNear(b, a, Num(e.in.tol) ** (One ++ MaxAbs(a)), e.in.fn \o " changes with the unit hbar")))
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
