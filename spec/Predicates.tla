----------------------------- MODULE Predicates -----------------------------
(***************************************************************************)
(* The classes of covariance matrices, with a tolerance: verdicts are      *)
(* "yes", "no", or "?" when the matrix lies within 10% of the tolerance.   *)
(***************************************************************************)
EXTENDS Gaussian
(* Hermitian matrix has all eigenvalues > 0 (leading minors) *)
PosDef(H) == \A k \in 1..Len(H) : Lt(Zero, Re(Det(SubM(H, [i \in 1..k |-> i]))))
WithOmega(V, h) == LET O == Omega(NModes(V)) IN Mat(Len(V), Len(V), LAMBDA i, j : ((V[i][j] ++ V[j][i]) ** Half) ++ ((ImagUnit ** (h // Two)) ** O[i][j]))
SymDev(V) == MaxAbs([i \in 1..Len(V) |-> [j \in 1..Len(V) |-> V[i][j] -- V[j][i]]])
F9 == Frac(9, 10)
F11 == Frac(11, 10)
(* verdicts: "yes", "no", or "?" inside the tolerance band *)
SymV(V, rt, at) == LET d == SymDev(V) IN IF Leq(d, F9 ** at) THEN "yes" ELSE IF Leq(at ++ (rt ** MaxAbs(V)), d ** F9) THEN "no" ELSE "?"
GeV(H, at) == IF PosDef(AddDiag(H, F9 ** at)) THEN "yes" ELSE IF ~PosDef(AddDiag(H, F11 ** at)) THEN "no" ELSE "?"
And3(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "yes" /\ b = "yes" THEN "yes" ELSE "?"
ValidV(V, h, rt, at) == LET s == SymV(V, rt, at) IN IF s # "yes" THEN s ELSE GeV(WithOmega(V, h), at)
PurityDev(V, h) == LET d == Det(MScale(Two // h, V)) IN Abs((One // Sqrt(d)) -- One)
PureV(V, h, rt, at) ==
  LET v == ValidV(V, h, rt, at) IN
  IF v = "no" THEN "no"
  ELSE LET d == PurityDev(V, h) t == rt ++ at
           p == IF Leq(d, F9 ** t) THEN "yes" ELSE IF Leq(F11 ** t, d) THEN "no" ELSE "?"
       IN And3(v, p)
ClassV(V, h, at) ==
  LET v == ValidV(V, h, Tiny(5), at) IN
  IF v = "no" THEN "no"
  ELSE And3(v, GeV(Mat(Len(V), Len(V), LAMBDA i, j : (IF i = j THEN V[i][j] -- (h // Two) ELSE (V[i][j] ++ V[j][i]) ** Half)), at))
=============================================================================
