--------------------------- MODULE MC_TotalPhotons ---------------------------
(***************************************************************************)
(* Design model: squeezed modes are added one by one to an optical network *)
(* and the total photon number is followed in two ways: as a convolution   *)
(* (dist), and from the covariance matrix of the whole state.              *)
(***************************************************************************)
EXTENDS TotalPhotons
K == 5
Ss == {Frac(1, 2), Frac(-1, 4), Zero}
Es == {One, Frac(1, 2), Frac(1, 10), Zero}
MaxModes == 3
VARIABLES sq, dist
Init == sq = <<>> /\ dist = <<One>> \o [n \in 1..K |-> Zero]
AddMode(s, e) == /\ Len(sq) < MaxModes
             /\ (IF sq = <<>> THEN TRUE ELSE ~Lt(s, sq[Len(sq)][1]))       (* order is irrelevant *)
             /\ sq' = Append(sq, <<s, e>>)
             /\ dist' = LET p == LossySqueezers(1, s, e, K) IN TLCEval([n \in 1..(K + 1) |-> RR(SumF([j \in 1..n |-> p[j] ** dist[n - j + 1]]))])
Next == \E s \in Ss, e \in Es : AddMode(s, e)
N == Len(sq)
Cov == Mat(2 * N, 2 * N, LAMBDA i, j : LET m == (i - 1) % N IN IF i # j THEN Zero ELSE LET c == SqueezedCov(sq[m + 1][1], sq[m + 1][2]) IN IF i <= N THEN c[1][1] ELSE c[2][2])
T30 == Tiny(30)
SameP(p, q) == \A n \in 1..(K + 1) : Within(p[n], q[n], T30)
FromState == N > 0 => SameP(dist, TotalDist(Cov, Two, K))
Identical == (N > 0 /\ \A i \in 1..N : sq[i] = sq[1]) => SameP(dist, LossySqueezers(N, sq[1][1], sq[1][2], K))
(* a passive network does not change the total photon number *)
BSm == LET c == Frac(3, 5) s == Frac(4, 5) IN [i \in 1..N |-> [j \in 1..N |-> IF i > 2 \/ j > 2 THEN (IF i = j THEN One ELSE Zero) ELSE IF i = j THEN c ELSE IF i < j THEN ImagUnit ** s ELSE ImagUnit ** s]]
Mixed == LET O == Real2(BSm) IN MRound(MMul(MMul(O, Cov), MT(O)), Prec)
Passive == N = 2 => SameP(dist, TotalDist(Mixed, Two, K))
(* the sum of the probabilities of all photon-number patterns with this total *)
Pats(n) == {x \in [1..N -> 0..n] : SumF([i \in 1..N |-> Num(x[i])]) = Num(n)}
Patterns == N = 2 => \A n \in 0..2 : Within(dist[n + 1], SumF([x \in Pats(n) |-> FockProbOf(ZeroVec(4), Mixed, Two, x)]), Tiny(25))
Sub1 == Leq(SumF(dist), One ++ T30) /\ \A n \in 1..(K + 1) : Leq(Neg(T30), Re(dist[n]))
(* moments: the closed form against partial sums, with the geometric tail *)
Mus == {Zero, Frac(1, 5), Frac(-1, 2)}
Moments1 == (N > 0 /\ \A i \in 1..N : sq[i] = sq[1]) =>
  \A mu \in Mus : \A m \in 0..2 :
    LET g == GenMoment(N, sq[1][1], sq[1][2], mu, m)
        p == PartialMoment(N, sq[1][1], sq[1][2], mu, m, 60)
    IN Leq(Re(p) -- T30, Re(g)) /\ Within(g, p, Tiny(8) ** (One ++ Abs(g)))
(* loss acts on the distribution by binomial thinning *)
Thin(k, s, e, n, top) == LET p == LossySqueezers(k, s, One, top) IN
  SumF([m \in 1..(top + 1) |-> IF m - 1 < n THEN Zero ELSE
    p[m] ** (FactQ(m - 1) // (FactQ(n) ** FactQ(m - 1 - n))) ** Pow(e, n) ** Pow(One -- e, m - 1 - n)])
Thinned == (N = 2 /\ sq[1] = sq[2]) => \A n \in 0..3 : Within(dist[n + 1], Thin(2, sq[1][1], sq[1][2], n, 40), Tiny(9))
(* one squeezer is not distinguishable from itself: the Gaussian probabilities *)
Col == <<<<Frac(3, 5)>>, <<ImagUnit ** Frac(1, 2)>>>>
OneSq == (N = 1 /\ sq[1][2] = One) =>
  LET c == 12 s == sq[1][1]
      V == MRound(OutputCov(Col, <<ModeMean(s)>>, <<Sinh(s) ** Cosh(s)>>), Prec)
      d == Distinguishable(Col, <<s>>, c)
      p == LossySqueezers(1, s, One, c - 1)
      w == SumF([i \in 1..c |-> p[i]])
  IN /\ Within(SumF(d), One, T30)
     /\ \A x \in {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<2, 0>>} : Within(d[x] ** w, FockProbOf(ZeroVec(4), V, Two, x), Tiny(4))
     /\ VWithin(Vec(2, LAMBDA i : SumF([x \in DOMAIN d |-> Num(x[i]) ** d[x]])), MeansOf(Col, <<s>>), Tiny(3))
     /\ LET cl == ClickNumbers(V) IN Within(SumF(cl), One, T30) /\ Within(cl[1], VacProb(ZeroVec(4), V, Two), T30)
=============================================================================
