------------------------------ MODULE Entangle ------------------------------
(***************************************************************************)
(* Entropies, logarithmic negativity and fidelity of Gaussian states.      *)
(* Vn is a covariance matrix in units in which the vacuum is the identity. *)
(* Symplectic spectra come as witnesses: a claimed spectrum is accepted if *)
(* its power sums are those of the matrix.                                 *)
(***************************************************************************)
EXTENDS Predicates
Unit(V, hbar) == MScale(Two // hbar, V)
RECURSIVE MPow(_, _)
MPow(A, k) == IF k = 1 THEN A ELSE MRound(MMul(A, MPow(A, k - 1)), 400)
(* tr (-(Omega V)^2)^k = 2 sum nu^2k, k = 1..N, determine the spectrum *)
SpectrumOf(nus, V, tol) ==
  LET N == NModes(V) OV == MMul(Omega(N), V) M == MScale(Neg(One), MMul(OV, OV)) IN
  Len(nus) = N /\ \A k \in 1..N : LET s == Two ** SumF([i \in 1..N |-> Pow(nus[i], 2 * k)]) IN Within(Trace(MPow(M, k)), s, tol ** (s ++ One))
Entropy1(nu) ==
  IF Leq(nu, One) THEN Zero
  ELSE LET a == (nu ++ One) // Two b == (nu -- One) // Two IN (a ** Log(a)) -- (b ** Log(b))
EntropyOf(nus) == SumF([i \in 1..Len(nus) |-> Entropy1(nus[i])])
(* partial transposition of the modes Z: their momenta change sign *)
PartialT(V, Z) == LET N == NModes(V) s == Vec(2 * N, LAMBDA i : IF i > N /\ (i - N) \in Z THEN Neg(One) ELSE One) IN Mat(2 * N, 2 * N, LAMBDA i, j : s[i] ** s[j] ** V[i][j])
NegativityOf(nus) == SumF([i \in 1..Len(nus) |-> IF Lt(nus[i], One) THEN Neg(Log(nus[i])) ELSE Zero])

(* ---- fidelity ----
   Tr(rho1 rho2), in units in which the vacuum covariance is 1 *)
Overlap(d, A, B) ==
  LET S == MAdd(A, B) IN
  (Pow(Two, NModes(A)) // Sqrt(Det(S))) ** Exp(Neg(Dot(d, MVec(MRound(Inverse(S), Prec), d))))
(* rho r rho^-1 = E r; the eigenvalues of E1 E2 are q_i, 1/q_i, where
   (1 - q_i) sum q_i^n |n><n| is the normal form of sqrt(rho1) rho2 sqrt(rho1) *)
Flow(A) ==
  LET n == Len(A) W == MScale(ImagUnit, MMul(A, Omega(NModes(A)))) IN
  MMul(MSub(W, Ident(n)), MRound(Inverse(MAdd(W, Ident(n))), 400))
QSpectrum(q, A, B, tol) ==
  LET N == NModes(A) M == MMul(Flow(A), Flow(B)) IN
  Len(q) = N /\ \A k \in 1..N : LET s == SumF([i \in 1..N |-> Pow(q[i], k) ++ Pow(q[i], -k)]) IN Within(Trace(MPow(M, k)), s, tol ** s)
FromQ(ov, q) == ov ** ProdF([i \in 1..Len(q) |-> (One ++ Sqrt(q[i])) // (One -- Sqrt(q[i]))])
(* one mode, in closed form (A, B 2x2) *)
Fidelity1(d, A, B) ==
  LET D == Det(MAdd(A, B)) L == (Det(A) -- One) ** (Det(B) -- One) l == IF Leq(L, Zero) THEN Zero ELSE L IN
  (Two // (Sqrt(D ++ l) -- Sqrt(l))) ** Exp(Neg(Dot(d, MVec(Inverse(MAdd(A, B)), d))))
=============================================================================
