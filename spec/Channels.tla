------------------------------ MODULE Channels ------------------------------
(***************************************************************************)
(* Photon-number distributions as tensors: T is the row-major sequence of  *)
(* the entries, cuts the length of each axis.  Each channel acts on one    *)
(* axis with a (sub)stochastic kernel K(out, in).                          *)
(***************************************************************************)
EXTENDS ExactMat
RECURSIVE ProdI(_)
ProdI(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdI(Tail(s))
Stride(cuts, i) == ProdI(SubSeq(cuts, i + 1, Len(cuts)))
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n < 0 THEN Zero ELSE F(n) ++ SumTo(F, n - 1)
OnAxis(T, cuts, i, K) ==
  LET st == Stride(cuts, i) c == cuts[i] IN
  TLCEval([p \in 1..Len(T) |->
     LET d == ((p - 1) \div st) % c
         base == p - (d * st)
     IN SumTo(LAMBDA m : K[d + 1][m + 1] ** T[base + (m * st)], c - 1)])
RECURSIVE Bin(_, _)
Bin(n, k) == IF k < 0 \/ k > n THEN Zero ELSE IF k = 0 \/ k = n THEN One ELSE Bin(n, k - 1) ** Frac(n - k + 1, k)
(* probability that m of n photons survive transmission eta *)
LossK(eta, c) == TLCEval([m \in 1..c |-> [n \in 1..c |-> IF m > n THEN Zero ELSE (Bin(n - 1, m - 1) ** Pow(eta, m - 1)) ** Pow(One -- eta, n - m)]])
NoiseK(q, c) == TLCEval([m \in 1..c |-> [n \in 1..c |-> IF m < n \/ m - n + 1 > Len(q) THEN Zero ELSE q[m - n + 1]]])
RECURSIVE AllAxes(_, _, _, _)
AllAxes(T, cuts, Ks, i) == IF i = 0 THEN T ELSE OnAxis(AllAxes(T, cuts, Ks, i - 1), cuts, i, Ks[i])
Loss(T, cuts, etas) == AllAxes(T, cuts, [i \in 1..Len(cuts) |-> LossK(etas[i], cuts[i])], Len(cuts))
Noise(T, cuts, qs) == AllAxes(T, cuts, [i \in 1..Len(cuts) |-> NoiseK(qs[i], cuts[i])], Len(cuts))
=============================================================================
