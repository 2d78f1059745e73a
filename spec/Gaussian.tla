------------------------------ MODULE Gaussian ------------------------------
(***************************************************************************)
(* Gaussian states of N modes, given by the vector of means mu and the     *)
(* Wigner covariance matrix V in the ordering (x_1..x_N, p_1..p_N) with    *)
(* [x, p] = i hbar.  Everything below is derived from the Husimi function  *)
(*   <alpha| rho |alpha> = hbar^N exp(-(xi-mu)^T W^-1 (xi-mu)/2)/sqrt(det W) *)
(* with W = V + hbar/2, xi = sqrt(2 hbar) (Re alpha, Im alpha), whose      *)
(* Taylor coefficients are the Fock matrix elements and whose value at 0   *)
(* is the vacuum probability.                                              *)
(***************************************************************************)
EXTENDS Hafnians

RECURSIVE MaxITo(_, _)
MaxITo(s, k) == IF k = 0 THEN 0 ELSE LET m == MaxITo(s, k - 1) IN IF s[k] > m THEN s[k] ELSE m
MaxI(s) == MaxITo(s, Len(s))
Prec == 300                     (* bits kept by intermediate roundings *)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>>
             ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN <<i>> \o SetSeq(S \ {i})
NModes(V) == Len(V) \div 2
(* phase space indices of the sequence of modes Z *)
XP(Z, N) == Z \o [k \in 1..Len(Z) |-> Z[k] + N]
RedV(V, Z) == SubM(V, XP(Z, NModes(V)))
RedMu(mu, Z) == SubV(mu, XP(Z, Len(mu) \div 2))

AddDiag(V, c) == Mat(Len(V), Len(V), LAMBDA i, j : IF i = j THEN V[i][j] ++ c ELSE V[i][j])
(* vacuum probability of the state itself *)
VacProb(mu, V, hbar) ==
  IF Len(V) = 0 THEN One
  ELSE LET W == AddDiag(V, hbar // Two)
           Wi == MRound(Inverse(W), Prec)
       IN Pow(hbar, NModes(V)) ** (Exp(Neg(Half) ** Dot(mu, MVec(Wi, mu))) // Sqrt(Det(W)))
VacOn(mu, V, hbar, Z) == VacProb(RedMu(mu, Z), RedV(V, Z), hbar)

(* click pattern d: modes with d[i] = 1 click, the others do not *)
Sgn(k) == IF k % 2 = 0 THEN One ELSE Neg(One)
ClickTerms(mu, V, hbar, d) ==
  LET on == {i \in DOMAIN d : d[i] = 1}
      off == {i \in DOMAIN d : d[i] # 1}
  IN TLCEval([S \in SUBSET on |-> Sgn(Cardinality(S)) ** VacOn(mu, V, hbar, SetSeq(off \cup S))])
ClickProb(mu, V, hbar, d) == SumF(ClickTerms(mu, V, hbar, d))
(* all 2^N patterns at once: Clicks[S] = probability that exactly S clicks *)
Clicks(mu, V, hbar) ==
  LET N == NModes(V)
      vac == TLCEval([Z \in SUBSET (1..N) |-> VacOn(mu, V, hbar, SetSeq(Z))])
  IN TLCEval([S \in SUBSET (1..N) |-> SumF([T \in SUBSET S |-> Sgn(Cardinality(T)) ** vac[((1..N) \ S) \cup T]])])

(* exponent of the Husimi function in beta = (conj alpha, alpha):
   c exp(beta^T A beta/2 + g^T beta - |alpha|^2)  *)
TMat(N, hbar) ==
  LET s == Sqrt(hbar // Two) IN
  Mat(2 * N, 2 * N, LAMBDA i, j :
    IF i <= N THEN (IF j = i \/ j = i + N THEN s ELSE Zero)
    ELSE IF j = i - N THEN ImagUnit ** s ELSE IF j = i THEN Neg(ImagUnit ** s) ELSE Zero)
Xmat(N) == Mat(2 * N, 2 * N, LAMBDA i, j : IF j = i + N \/ i = j + N THEN One ELSE Zero)
KernelA(V, hbar) ==
  LET N == NModes(V)
      Wi == MRound(Inverse(AddDiag(V, hbar // Two)), Prec)
      T == TMat(N, hbar)
  IN MRound(MSub(Xmat(N), MMul(MMul(MT(T), Wi), T)), Prec)
KernelG(mu, V, hbar) ==
  LET Wi == MRound(Inverse(AddDiag(V, hbar // Two)), Prec)
  IN MVec(MT(TMat(NModes(V), hbar)), MVec(Wi, mu))
(* <m| rho |n> *)
SqrtFact(m) == Sqrt(ProdF([i \in 1..Len(m) |-> FactQ(m[i])]))
ElementOf(A, g, c, m, n) == c ** (RepHaf(A, g, m \o n) // (SqrtFact(m) ** SqrtFact(n)))
Element(mu, V, hbar, m, n) == ElementOf(KernelA(V, hbar), KernelG(mu, V, hbar), VacProb(mu, V, hbar), m, n)
FockProbOf(mu, V, hbar, n) == Element(mu, V, hbar, n, n)

(* symplectic form of the ordering (x.., p..) *)
Omega(N) == Mat(2 * N, 2 * N, LAMBDA i, j : IF j = i + N THEN One ELSE IF i = j + N THEN Neg(One) ELSE Zero)
IsSymplecticTo(S, tol) == LET N == NModes(S) IN MWithin(MMul(MMul(S, Omega(N)), MT(S)), Omega(N), tol)

(* The annihilation operators: <a_i>, and the covariances (symmetrised)
   Nn[i][j] = <a_i^dag a_j> - <a_i>* <a_j>,  Mm[i][j] = <a_i a_j> - <a_i><a_j>. *)
AlphaOf(mu, hbar) == LET N == Len(mu) \div 2 s == Sqrt(Two ** hbar)
                     IN Vec(N, LAMBDA i : Cx(mu[i], mu[i + N]) // s)
NMat(V, hbar) ==
  LET N == NModes(V) IN
  Mat(N, N, LAMBDA i, j : (((V[i][j] ++ V[i + N][j + N]) ++ (ImagUnit ** (V[i][j + N] -- V[i + N][j]))) // (Two ** hbar))
                          -- (IF i = j THEN Half ELSE Zero))
MMat(V, hbar) ==
  LET N == NModes(V) IN
  Mat(N, N, LAMBDA i, j : ((V[i][j] -- V[i + N][j + N]) ++ (ImagUnit ** (V[i][j + N] ++ V[i + N][j]))) // (Two ** hbar))
=============================================================================
