----------------------------- MODULE FockGates -----------------------------
(***************************************************************************)
(* Fock-space matrix elements of the elementary gates.  A gate U is given  *)
(* by its Bargmann kernel                                                  *)
(*   sum_{m,n} <m|U|n> z^m w^n / sqrt(m! n!) = c exp(x^T R x/2 + y^T x),   *)
(*   x = (z, w),                                                           *)
(* so that <m|U|n> is c times the repeated loop hafnian of (R, y) divided  *)
(* by the square roots of the factorials.  MC_FockGates checks that these  *)
(* kernels solve the differential equations that define the gates,         *)
(*   D = exp(r e^{i phi} a^dag - h.c.), S = exp(r/2 (e^{-i th} a^2 - h.c.)) *)
(*   S2 = exp(r (e^{i th} a1^dag a2^dag - h.c.)),                          *)
(*   B = exp(th (e^{i phi} a1 a2^dag - h.c.)).                             *)
(***************************************************************************)
EXTENDS Gaussian
Ph(t) == Exp(ImagUnit ** t)
Passive(M) == LET n == Len(M) IN [c |-> One, y |-> ZeroVec(2 * n),
   R |-> Mat(2 * n, 2 * n, LAMBDA i, j : IF i <= n /\ j > n THEN M[i][j - n] ELSE IF i > n /\ j <= n THEN M[j][i - n] ELSE Zero)]
BSMat(t, p) == <<<<Cos(t), Neg(Sin(t) ** Ph(Neg(p)))>>, <<Sin(t) ** Ph(p), Cos(t)>>>>
Sym50 == LET s == Sqrt(Half) IN <<<<s, ImagUnit ** s>>, <<ImagUnit ** s, s>>>>
PhaseOn1(t) == <<<<Ph(t), Zero>>, <<Zero, One>>>>
MZMat(t, p) == MMul(MMul(Sym50, PhaseOn1(t)), MMul(Sym50, PhaseOn1(p)))
Kern(g, a, b) ==
  CASE g = "displacement" ->
        [c |-> Exp(Neg(Half) ** a ** a), R |-> <<<<Zero, One>>, <<One, Zero>>>>, y |-> <<a ** Ph(b), Neg(a ** Ph(Neg(b)))>>]
    [] g = "squeezing" ->
        LET s == One // Cosh(a) t == Tanh(a) IN
        [c |-> Sqrt(s), y |-> ZeroVec(2), R |-> <<<<Neg(t ** Ph(b)), s>>, <<s, t ** Ph(Neg(b))>>>>]
    [] g = "two_mode_squeezing" ->
        LET s == One // Cosh(a) t == Tanh(a) p == t ** Ph(b) q == Neg(t ** Ph(Neg(b))) IN
        [c |-> s, y |-> ZeroVec(4), R |-> <<<<Zero, p, s, Zero>>, <<p, Zero, Zero, s>>, <<s, Zero, Zero, q>>, <<Zero, s, q, Zero>>>>]
    [] g = "beamsplitter" -> Passive(BSMat(a, b))
    [] g = "mzgate" -> Passive(MZMat(a, b))
NM(g) == IF g \in {"displacement", "squeezing"} THEN 1 ELSE 2
(* all elements below the cutoffs, row-major in (out, in) *)
GateTable(g, a, b, cut) ==
  LET k == Kern(g, a, b)
      t == RepHafTable(MRound(k.R, Prec), k.y, cut)
      sf == TLCEval([n \in 0..(MaxI(cut) - 1) |-> Sqrt(FactQ(n))])
  IN Vec(BoxSize(cut), LAMBDA i : Round(k.c ** (t[i] // ProdF([j \in 1..Len(cut) |-> sf[Unravel(i - 1, cut)[j]]])), Prec))
(* derivatives: central differences at step 10^-30, exact to 10^-40 *)
DStep == Tiny(30)
DGate(g, a, b, cut, wrt) ==
  LET p == IF wrt = 1 THEN GateTable(g, a ++ DStep, b, cut) ELSE GateTable(g, a, b ++ DStep, cut)
      m == IF wrt = 1 THEN GateTable(g, a -- DStep, b, cut) ELSE GateTable(g, a, b -- DStep, cut)
  IN Vec(Len(p), LAMBDA i : (p[i] -- m[i]) // (Two ** DStep))
=============================================================================
