----------------------------- MODULE Trace_C24 -----------------------------
(***************************************************************************)
(* C24: entropies, negativity and fidelity.                                *)
(***************************************************************************)
EXTENDS TraceBase, Entangle
V(e) == Unit(Nums(e.in.V), Num(e.in.hbar))
Z(e) == [k \in 1..Len(e.in.part) |-> e.in.part[k] + 1]
(* eigenvalues closer to 1 than 1e-5 count as 1 (documented tolerance of the entropy) *)
EntTol(nus) == (Num(Len(nus)) ** Num(2) ** Tiny(4)) ++ (Tiny(7) ** EntropyOf(nus))
FTol == Num(2) ** Tiny(4)
RealNear(e, want, tol, name) ==
  Then(Scalar(e), LET x == Num(e.out.v) IN Near(Re(x), want, tol, name) \cup Near(Im(x), Zero, tol, name \o " (imaginary part)"))
Witness(ok) == Req(ok, "MACHINERY: the claimed spectrum is wrong")
Delta(e) == VScale(One // Sqrt(Num(e.in.hbar)), VSub(Nums(e.in.mu1), Nums(e.in.mu2)))
Judge(e) ==
  CASE e.op = "vonneumann" ->
        LET nus == Nums(e.in.nus) IN Witness(SpectrumOf(nus, V(e), Tiny(8))) \cup RealNear(e, EntropyOf(nus), EntTol(nus), "von Neumann entropy")
    [] e.op = "entropy" ->
        LET nus == Nums(e.in.nus) IN Witness(SpectrumOf(nus, RedV(V(e), Z(e)), Tiny(8))) \cup RealNear(e, EntropyOf(nus), EntTol(nus), "entanglement entropy")
    [] e.op = "negativity" ->
        LET nus == Nums(e.in.nus) IN
        Witness(SpectrumOf(nus, PartialT(V(e), {Z(e)[k] : k \in 1..Len(Z(e))}), Tiny(8))) \cup RealNear(e, NegativityOf(nus), Tiny(6) ** (One ++ NegativityOf(nus)), "logarithmic negativity")
    [] e.op = "fidelity" ->
        LET A == Unit(Nums(e.in.V1), Num(e.in.hbar)) B == Unit(Nums(e.in.V2), Num(e.in.hbar)) d == Delta(e) N == NModes(A) IN
        CASE e.in.how = "overlap" -> RealNear(e, Overlap(d, A, B), FTol, "fidelity with a pure state")
          [] e.in.how = "q" -> LET q == Nums(e.in.q) f == FromQ(Overlap(d, A, B), q) IN Witness(QSpectrum(q, A, B, Tiny(5))) \cup RealNear(e, f, FTol, "fidelity")
          [] e.in.how = "equal" -> Witness(A = B /\ \A i \in 1..Len(d) : d[i] = Zero) \cup RealNear(e, One, FTol, "fidelity of equal states")
          [] e.in.how = "product" ->
               (* V_i = S (single-mode states) S^T: the product of one-mode fidelities *)
               LET S == Nums(e.in.S) a == Nums(e.in.a) b == Nums(e.in.b)
                   Big(w) == Mat(2 * N, 2 * N, LAMBDA i, j : LET m == ((i - 1) % N) + 1 IN IF ((j - 1) % N) + 1 # m THEN Zero ELSE w[m][1 + ((i - 1) \div N)][1 + ((j - 1) \div N)])
                   Im1(w) == MMul(MMul(S, Big(w)), MT(S))
                   dd == MVec(MRound(Inverse(S), Prec), d)
               IN Witness(MWithin(Im1(a), A, Tiny(10)) /\ MWithin(Im1(b), B, Tiny(10)))
                  \cup RealNear(e, ProdF([m \in 1..N |-> Fidelity1(<<dd[m], dd[m + N]>>, a[m], b[m])]), FTol, "fidelity of transformed products")
          [] OTHER -> {"unknown event"}
    [] e.op = "sym" -> Then(Returned(e), Near(Num(e.out.v[1].v), Num(e.out.v[2].v), FTol, "exchanging the states changes the fidelity"))
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
