---------------------------- MODULE GaussUnitary ----------------------------
(***************************************************************************)
(* Fock matrix of the Gaussian unitary U = D(alpha) U_S, where             *)
(* U_S^dag xi U_S = S xi, i.e. U_S^dag a U_S = E a + F a^dag.              *)
(* (E^dag a - F^T a^dag) annihilates U_S|0>, which gives the kernel        *)
(*   c exp(z^T Rzz z/2 + z^T Rzw w + w^T Rww w/2),                         *)
(*   Rzz = (E^dag)^-1 F^T, Rzw = (E^dag)^-1, Rww = -conj(E^-1 F),          *)
(*   |c| = |det E|^-1/2,                                                   *)
(* and D(alpha) replaces z by z - conj(alpha) and multiplies by            *)
(* exp(alpha.z - |alpha|^2/2).  The phase of c is not fixed by S.          *)
(***************************************************************************)
EXTENDS FockGates
SBlk(S, r, c) == LET n == NModes(S) IN Mat(n, n, LAMBDA i, j : S[i + r * n][j + c * n])
EMat(S) == MScale(Half, MAdd(MAdd(SBlk(S, 0, 0), SBlk(S, 1, 1)), MScale(ImagUnit, MSub(SBlk(S, 1, 0), SBlk(S, 0, 1)))))
FMat(S) == MScale(Half, MAdd(MSub(SBlk(S, 0, 0), SBlk(S, 1, 1)), MScale(ImagUnit, MAdd(SBlk(S, 1, 0), SBlk(S, 0, 1)))))
KernS(S, alpha) ==
  LET n == NModes(S)
      E == EMat(S) F == FMat(S)
      Ei == MRound(Inverse(E), Prec)
      Zw == MDag(Ei)
      Zz == MMul(Zw, MT(F))
      Ww == MScale(Neg(One), MConj(MMul(Ei, F)))
      ac == VConj(alpha)
      zz == MVec(Zz, ac)
  IN [c |-> Exp(Half ** (Dot(ac, zz) -- Dot(ac, alpha))) // Sqrt(Abs(Det(E))),
      R |-> MRound(MBlock(Zz, Zw, MT(Zw), Ww), Prec),
      y |-> VSub(alpha, zz) \o MVec(MScale(Neg(One), MT(Zw)), ac)]
UTable(S, alpha, cut) ==
  LET k == KernS(S, alpha)
      t == RepHafTable(k.R, k.y, cut)
      sf == TLCEval([n \in 0..(MaxI(cut) - 1) |-> Sqrt(FactQ(n))])
  IN Vec(BoxSize(cut), LAMBDA i : Round(k.c ** (t[i] // ProdF([j \in 1..Len(cut) |-> sf[Unravel(i - 1, cut)[j]]])), Prec))
(* the symplectic matrix (x.., p..) of E, F *)
SOf(E, F) == LET P == MAdd(E, F) Q == MSub(E, F) IN
  MBlock([i \in 1..Len(P) |-> [j \in 1..Len(P) |-> Re(P[i][j])]], [i \in 1..Len(P) |-> [j \in 1..Len(P) |-> Neg(Im(Q[i][j]))]],
         [i \in 1..Len(P) |-> [j \in 1..Len(P) |-> Im(P[i][j])]], [i \in 1..Len(P) |-> [j \in 1..Len(P) |-> Re(Q[i][j])]])
(* the elementary gates as symplectic matrix and displacement *)
SympG(g, a, b) ==
  CASE g = "displacement" -> Ident(2)
    [] g = "squeezing" -> SOf(<<<<Cosh(a)>>>>, <<<<Neg(Sinh(a) ** Ph(b))>>>>)
    [] g = "two_mode_squeezing" -> SOf(MScale(Cosh(a), Ident(2)), LET s == Sinh(a) ** Ph(b) IN <<<<Zero, s>>, <<s, Zero>>>>)
    [] g = "beamsplitter" -> SOf(BSMat(a, b), ZeroMat(2, 2))
    [] g = "mzgate" -> SOf(MZMat(a, b), ZeroMat(2, 2))
AlphaG(g, a, b) == IF g = "displacement" THEN <<a ** Ph(b)>> ELSE ZeroVec(NM(g))
=============================================================================
