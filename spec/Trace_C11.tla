----------------------------- MODULE Trace_C11 -----------------------------
(***************************************************************************)
(* C11: the recorded history of moments must be a behaviour of             *)
(* GaussCircuit: after every step the code's moments are those of the      *)
(* machine, run from the vacuum with the same steps.                       *)
(***************************************************************************)
EXTENDS TraceBase, GaussCircuit
Ph(x) == Cx(Cos(x), Sin(x))
RECURSIVE Fold1(_, _, _, _)
Fold1(q, s, F(_, _, _), i) == IF i > Len(s.w) THEN q ELSE Fold1(F(q, s, i), s, F, i + 1)
P(s, i) == Num(s.p[i])
Ap(q, s) ==
  LET w == [i \in 1..Len(s.w) |-> s.w[i] + 1] IN
  CASE s.g = "sq" -> SqueezeG(q, Cosh(P(s, 1)), Sinh(P(s, 1)), Ph(P(s, 2)), w[1])
    [] s.g = "sqvec" -> LET F(r, t, i) == SqueezeG(r, Cosh(Num(t.r[i])), Sinh(Num(t.r[i])), Ph(Num(t.phi[i])), t.w[i] + 1) IN Fold1(q, s, F, 1)
    [] s.g = "sqmany" -> LET F(r, t, i) == SqueezeG(r, Cosh(P(t, 1)), Sinh(P(t, 1)), Ph(P(t, 2)), t.w[i] + 1) IN Fold1(q, s, F, 1)
    [] s.g = "rot" -> RotateG(q, Ph(P(s, 1)), w[1])
    [] s.g = "disp" -> DisplaceG(q, P(s, 1), w[1])
    [] s.g = "bs" -> BeamSplitG(q, Cos(P(s, 1)), Sin(P(s, 1)), Ph(P(s, 2)), w[1], w[2])
    [] s.g = "tms" -> TwoModeSqueezeG(q, Cosh(P(s, 1)), Sinh(P(s, 1)), Ph(P(s, 2)), w[1], w[2])
    [] s.g = "U" -> InterferometerG(q, Nums(s.U), w)
    [] s.g = "loss" -> LossG(q, Sqrt(P(s, 1)), P(s, 2), w[1])
    [] s.g = "pass" -> PassiveG(q, Embed(Nums(s.U), w, Len(q.a), One))
RECURSIVE Run(_, _, _)
Run(q, steps, k) == IF k = 0 THEN <<q>> ELSE LET r == Run(q, steps, k - 1) IN Append(r, RoundQ(Ap(r[k], steps[k])))
QOf(mu, V, h) == [a |-> AlphaOf(mu, h), n |-> NMat(V, h), m |-> MMat(V, h)]
Tol(x) == Tiny(9) ** (MaxAbs(x) ++ One)
Judge(e) ==
  CASE e.op = "circuit" ->
        LET h == Num(e.in.hbar) N == e.in.N
            st == e.in.steps
            r == Run(VacuumQ(N), st, Len(st))
            got == Nums(e.out.v)
            nm(k) == "after step " \o ToString(k) \o (IF k = 0 THEN " (vacuum)" ELSE " " \o st[k].g \o " on " \o ToString(st[k].w))
            badk == {k \in 0..Len(st) : LET g == got[k + 1] mu == MuOf(r[k + 1], h) V == VOf(r[k + 1], h)
                        IN ~(VWithin(g[1], mu, Tol(mu)) /\ MWithin(Tail(g), V, Tol(V)))}
        IN Then(Array(e, <<Len(st) + 1, 2 * N + 1, 2 * N>>),
              IF badk = {} THEN {}
              ELSE LET k == CHOOSE k \in badk : \A l \in badk : k <= l
                       g == got[k + 1] mu == MuOf(r[k + 1], h) V == VOf(r[k + 1], h)
                   IN VNear(g[1], mu, Tol(mu), "means " \o nm(k)) \cup MNear(Tail(g), V, Tol(V), "covariance " \o nm(k)))
    [] e.op = "symplectic" -> ArrayMNear(e, Nums(e.in.S), Tiny(9) ** (One ++ MaxAbs(Nums(e.in.S))), "sparse and dense expand differ")
    [] e.op = "flag" -> Then(Returned(e), Req(e.out.v = e.in.want, e.in.fn \o " of a circuit's output is not " \o ToString(e.in.want)))
    [] e.op \in {"reduced_state", "reduced_gaussian"} ->
        LET h == Num(e.in.hbar) mu == Nums(e.in.mu) V == Nums(e.in.V)
            w == [i \in 1..Len(e.in.modes) |-> e.in.modes[i] + 1]
        IN ArrayMNear(e, <<RedMu(mu, w)>> \o RedV(V, w), Tiny(12) ** (One ++ MaxAbs(V) ++ MaxAbs(mu)), e.op \o " of modes " \o ToString(e.in.modes))
    [] e.op = "reject" -> Raised(e, {"ValueError"})
    [] e.op = "passive" ->
        LET h == Num(e.in.hbar) mu == Nums(e.in.mu) V == Nums(e.in.V)
            r == PassiveG(QOf(mu, V, h), Nums(e.in.T))
            W == VOf(r, h)
        IN ArrayMNear(e, <<MuOf(r, h)>> \o W, Tol(W) ++ Tol(MuOf(r, h)), "passive_transformation")
    [] e.op = "mean_photon_number" ->
        LET h == Num(e.in.hbar) r == QOf(Nums(e.in.mu), Nums(e.in.V), h)
            b == VarPhotons(r, 1)
        IN ArrayVNear(e, <<MeanPhotons(r, 1), b>>, Tiny(9) ** (One ++ Abs(b)), "mean_photon_number (mean, variance)")
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
