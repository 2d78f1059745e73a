---------------------------- MODULE TotalPhotons ----------------------------
(***************************************************************************)
(* The total photon number of Gaussian states without displacement, and of *)
(* squeezed modes that do not interfere with each other.                   *)
(***************************************************************************)
EXTENDS Moments, Fold
RR(x) == Round(x, Prec)
Unit1(V, hbar) == MScale(Two // hbar, V)
(* sum_n p_n z^n = (det((V+I)/2) det(I - z M))^(-1/2), M = (V-I)(V+I)^-1,  *)
(* so that n p_n = (1/2) sum_{j=1..n} tr(M^j) p_{n-j}.                      *)
FromTraces(p0, t, K) ==
  FoldL(LAMBDA p, n : Append(p, RR(Frac(1, 2 * n) ** SumF([j \in 1..n |-> t[j] ** p[n - j + 1]]))), <<p0>>, [n \in 1..K |-> n])
TotalDist(V, hbar, K) ==
  LET W == Unit1(V, hbar)
      P == AddDiag(W, One)
      M == MRound(MMul(AddDiag(W, Neg(One)), MRound(Inverse(P), Prec)), Prec)
      pw == FoldL(LAMBDA s, j : Append(s, MRound(MMul(s[Len(s)], M), Prec)), <<M>>, [j \in 1..K |-> j])
  IN FromTraces(One // Sqrt(Det(MScale(Half, P))), [j \in 1..K |-> Trace(pw[j])], K)
(* --- k squeezed vacua, squeezing s, transmission eta: the generating function is        *)
(*     ((1-t^2) / (1 - t^2 (1 - eta + eta z)^2))^(k/2), t = tanh s                        *)
QuadCoeffs(s, eta) == LET t2 == RR(Tanh(s) ** Tanh(s)) u == One -- eta IN
  <<One -- (t2 ** u ** u), Neg(Two ** t2 ** u ** eta), Neg(t2 ** eta ** eta)>>
(* coefficients of c (a0 + a1 z + ... )^(-k/2) given the first one: P f' = a P' f *)
SeriesPow(P, a, f0, K) ==
  LET i0 == RR(One // P[1]) IN
  FoldL(LAMBDA f, n :
      Append(f, RR((i0 ** Frac(1, n)) ** SumF([j \in 1..(IF n < Len(P) - 1 THEN n ELSE Len(P) - 1) |->
                 ((a ** Num(j)) -- Num(n - j)) ** P[j + 1] ** f[n - j + 1]]))), <<f0>>, [n \in 1..K |-> n])
RatPow(x, k) == LET r == Pow(x, k \div 2) IN IF k % 2 = 0 THEN r ELSE r ** Sqrt(x)
LossySqueezers(k, s, eta, K) ==
  LET P == QuadCoeffs(s, eta)
      v == One // (Cosh(s) ** Cosh(s))
  IN SeriesPow(P, Frac(-k, 2), RatPow(RR(v // P[1]), k), K)
SqueezedCov(s, eta) == <<<<(eta ** Exp(Neg(Two ** s))) ++ (One -- eta), Zero>>, <<Zero, (eta ** Exp(Two ** s)) ++ (One -- eta)>>>>
(* ratio of consecutive probabilities, for n to infinity *)
TailRatio(s, eta) == LET t == Abs(Tanh(s)) IN (eta ** t) // (One -- ((One -- eta) ** t))
(* < n^m e^(mu n) >: m! times the m-th coefficient of G(e^(mu + x)) in x *)
GenMoment(k, s, eta, mu, m) ==
  LET z == Exp(mu)
      t2 == RR(Tanh(s) ** Tanh(s))
      u == [j \in 1..(m + 1) |-> (IF j = 1 THEN One -- eta ELSE Zero) ++ ((eta ** z) // FactQ(j - 1))]
      P == [n \in 1..(m + 1) |-> RR((IF n = 1 THEN One ELSE Zero) -- (t2 ** SumF([j \in 1..n |-> u[j] ** u[n - j + 1]])))]
      v == One // (Cosh(s) ** Cosh(s))
      f == SeriesPow(P, Frac(-k, 2), RatPow(RR(v // P[1]), k), m)
  IN FactQ(m) ** f[m + 1]
PartialMoment(k, s, eta, mu, m, terms) ==
  LET p == LossySqueezers(k, s, eta, terms - 1) z == Exp(mu) IN
  SumF([n \in 1..terms |-> (IF m = 0 THEN One ELSE Pow(Num(n - 1), m)) ** Pow(z, n - 1) ** p[n]])
(* --- squeezers that do not interfere, through a matrix of transmissions T *)
Trans(T) == Mat(Rows(T), Cols(T), LAMBDA i, j : Abs2(T[i][j]))
ModeMean(r) == Sinh(r) ** Sinh(r)
ModeVar(r) == Two ** ModeMean(r) ** (ModeMean(r) ++ One)
MeansOf(T, rs) == LET A == Trans(T) IN Vec(Rows(T), LAMBDA i : SumF([k \in 1..Len(rs) |-> A[i][k] ** ModeMean(rs[k])]))
(* a photon of squeezer k is found in output i with probability A[i][k]    *)
CovOf(T, rs) == LET A == Trans(T) IN
  Mat(Rows(T), Rows(T), LAMBDA i, j : SumF([k \in 1..Len(rs) |->
      (A[i][k] ** A[j][k] ** (ModeVar(rs[k]) -- ModeMean(rs[k]))) ++ (IF i = j THEN A[i][k] ** ModeMean(rs[k]) ELSE Zero)]))
TruncSq(r, c) == LET p == LossySqueezers(1, r, One, c - 1) t == SumF([i \in 1..c |-> p[i]]) IN [i \in 1..c |-> RR(p[i] // t)]
(* distributions over patterns are functions; one photon of squeezer k is added at a time *)
Support(d) == DOMAIN d
Bump(x, i) == [x EXCEPT ![i] = @ + 1]
AddPhoton(d, col) ==
  LET M == Len(col)
      lost == One -- SumF([i \in 1..M |-> col[i]])
      S == DOMAIN d
      T == S \cup {Bump(x, i) : x \in S, i \in 1..M}
      At(x) == IF x \in S THEN d[x] ELSE Zero
  IN TLCEval([x \in T |-> RR((lost ** At(x)) ++ SumF([i \in 1..M |-> IF x[i] = 0 THEN Zero ELSE col[i] ** At([x EXCEPT ![i] = @ - 1])]))])
Photons(M, col, n) == FoldL(LAMBDA d, j : AddPhoton(d, col), [x \in {[i \in 1..M |-> 0]} |-> One], [j \in 1..n |-> j])
MixOf(M, col, p) ==      (* photon-number distribution p = <<p_0, p_1, ...>> *)
  LET ds == FoldL(LAMBDA s, j : Append(s, AddPhoton(s[Len(s)], col)), <<Photons(M, col, 0)>>, [j \in 1..(Len(p) - 1) |-> j])
      T == DOMAIN ds[Len(p)]
  IN TLCEval([x \in T |-> SumF([n \in 1..Len(p) |-> IF x \in DOMAIN ds[n] THEN p[n] ** ds[n][x] ELSE Zero])])
PlusV(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
MinusV(x, y) == [i \in 1..Len(x) |-> x[i] - y[i]]
Conv2(d, e) ==
  LET T == {PlusV(x, y) : x \in DOMAIN d, y \in DOMAIN e} IN
  TLCEval([z \in T |-> SumF([x \in DOMAIN d |-> LET y == MinusV(z, x) IN IF y \in DOMAIN e THEN d[x] ** e[y] ELSE Zero])])
Distinguishable(T, rs, c) ==
  LET M == Rows(T) A == Trans(T) IN
  FoldL(LAMBDA d, k : Conv2(d, MixOf(M, [i \in 1..M |-> A[i][k]], TruncSq(rs[k], c))), Photons(M, <<>>, 0), [k \in 1..Len(rs) |-> k])
(* --- number of clicking detectors behind a lossy linear network *)
Real2(T) == Mat(2 * Rows(T), 2 * Cols(T), LAMBDA i, j :
   LET n == Rows(T) m == Cols(T) x == T[((i - 1) % n) + 1][((j - 1) % m) + 1] IN
   IF (i > n) = (j > m) THEN Re(x) ELSE IF i > n THEN Im(x) ELSE Neg(Im(x)))
InputCov(phn, chn) == DiagMat([i \in 1..(2 * Len(phn)) |-> LET j == ((i - 1) % Len(phn)) + 1 IN
   One ++ (Two ** phn[j]) ++ (IF i > Len(phn) THEN Neg(Two ** chn[j]) ELSE Two ** chn[j])])
OutputCov(T, phn, chn) == LET X == Real2(T) IN MAdd(Ident(2 * Rows(T)), MMul(MMul(X, AddDiag(InputCov(phn, chn), Neg(One))), MT(X)))
ClickNumbers(V) ==
  LET N == NModes(V) c == Clicks(ZeroVec(2 * N), V, Two) IN
  Vec(N + 1, LAMBDA k : SumF([S \in {R \in DOMAIN c : Cardinality(R) = k - 1} |-> c[S]]))
=============================================================================
