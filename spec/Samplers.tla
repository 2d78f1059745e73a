------------------------------ MODULE Samplers ------------------------------
(***************************************************************************)
(* The chain-rule samplers as machines.  The state of a run is the set of  *)
(* channels already counted (with their outcomes) and the set of channels  *)
(* still projected on a coherent state (heterodyned); one step replaces    *)
(* the heterodyne projection of one channel by a photon count, drawn with  *)
(* the conditional probability of a pure Gaussian state                    *)
(*   p(n | counts so far, heterodyne values of the others), n <= cutoff.   *)
(* The amplitude <counts; alphas| psi> is a loop hafnian: projecting       *)
(* channel j on alpha_j puts z_j = conj(alpha_j) into the kernel           *)
(* exp(z^T B z/2 + g^T z).                                                 *)
(* With every internal normal variate at zero the heterodyne values are    *)
(* the means, which is what the step events below use.                     *)
(* MC_ChainRule.tla proves that such a run has exactly the law of counting *)
(* all channels.                                                           *)
(***************************************************************************)
EXTENDS Gaussian
PureKernel(mu, V, hbar) ==
  LET N == NModes(V) A == KernelA(V, hbar) g == KernelG(mu, V, hbar)
  IN [B |-> Mat(N, N, LAMBDA i, j : A[i][j]), g |-> Vec(N, LAMBDA i : g[i]), al |-> AlphaOf(mu, hbar)]
Normalise(w) == LET t == SumF(w) IN Vec(Len(w), LAMBDA i : w[i] // t)

(* ---- photon counting: draws in the order ord, outcomes path so far ---- *)
GammaH(K, ord, k, i) ==
  K.g[i] ++ SumF([l \in (k + 1)..Len(ord) |-> K.B[i][ord[l]] ** Conj(K.al[ord[l]])])
StepProbsH(K, ord, path, k, cutoff) ==
  LET Z == SubSeq(ord, 1, k)
      B == SubM(K.B, Z)
      g == Vec(k, LAMBDA i : GammaH(K, ord, k, ord[i]))
  IN Normalise(Vec(cutoff + 1, LAMBDA j : Abs2(RepHaf(B, g, SubSeq(path, 1, k - 1) \o <<j - 1>>)) // FactQ(j - 1)))

(* ---- threshold detection through a fan-out of f channels per mode ----
   A configuration is <<k, c>>: drawing channel c of the k-th mode of ord. *)
NextCfg(k, c, outcome, f) == IF outcome > 0 \/ c = f THEN <<k + 1, 1>> ELSE <<k, c + 1>>
RECURSIVE Cfgs(_, _, _, _)
Cfgs(k, c, outs, f) == IF outs = <<>> THEN <<>> ELSE LET n == NextCfg(k, c, outs[1], f) IN <<<<k, c>>>> \o Cfgs(n[1], n[2], Tail(outs), f)
(* number of channels of mode l still heterodyned when drawing cfg, and counts per mode *)
DrawsOf(cfgs, t, l) == Cardinality({s \in 1..t : cfgs[s][1] = l})
CountOf(cfgs, outs, t, l) == LET s == {u \in 1..t : cfgs[u][1] = l /\ outs[u] > 0} IN IF s = {} THEN 0 ELSE outs[CHOOSE u \in s : TRUE]
StepProbsT(K, ord, outs, t, f, cutoff) ==
  LET cfgs == Cfgs(1, 1, outs, f)
      M == Len(ord) k == cfgs[t][1]
      (* alpha/sqrt(f) per channel, kernel entries divided by f: the sum over the
         remaining channels of mode l contributes B_il conj(al_l) (remaining/f)/sqrt(f) *)
      left(l) == f - DrawsOf(cfgs, t, l)
      sf == Sqrt(Num(f))
      gam(i) == (K.g[i] ++ SumF([l \in 1..M |-> K.B[i][ord[l]] ** Conj(K.al[ord[l]]) ** Frac(left(l), f)])) // sf
      Z == SubSeq(ord, 1, k)
      B == MScale(Frac(1, f), SubM(K.B, Z))
      g == Vec(k, LAMBDA i : gam(ord[i]))
  IN Normalise(Vec(cutoff + 1, LAMBDA j : Abs2(RepHaf(B, g, [l \in 1..k |-> IF l = k THEN j - 1 ELSE CountOf(cfgs, outs, t - 1, l)])) // FactQ(j - 1)))

(* ---- laws ---- *)
(* probability that some mode has more than c photons is at most this *)
TailBound(mu, V, hbar, c) ==
  SumF([j \in 1..NModes(V) |->
     LET m == RedMu(mu, <<j>>) W == RedV(V, <<j>>) A == KernelA(W, hbar) g == KernelG(m, W, hbar) v == VacProb(m, W, hbar)
         p == TLCEval([n \in 0..c |-> ElementOf(A, g, v, <<n>>, <<n>>)])
     IN One -- SumF(p)])
(* probability that n photons split over f channels leave more than c in one *)
RECURSIVE SplitOk(_, _, _)   (* number of sequences of n balls into f boxes, each at most c *)
SplitOk(n, f, c) == IF f = 0 THEN (IF n = 0 THEN One ELSE Zero)
                    ELSE SumF([j \in 0..(IF n < c THEN n ELSE c) |-> (FactQ(n) // (FactQ(j) ** FactQ(n - j))) ** SplitOk(n - j, f - 1, c)])
SplitBad(n, f, c) == One -- (SplitOk(n, f, c) // Pow(Num(f), n))
NMax == 14
FanTail(mu, V, hbar, f, c) ==
  SumF([j \in 1..NModes(V) |->
     LET m == RedMu(mu, <<j>>) W == RedV(V, <<j>>) A == KernelA(W, hbar) g == KernelG(m, W, hbar) v == VacProb(m, W, hbar)
         p == TLCEval([n \in 0..NMax |-> ElementOf(A, g, v, <<n>>, <<n>>)])
     IN (One -- SumF(p)) ++ SumF([n \in 0..NMax |-> p[n] ** SplitBad(n, f, c)])])
=============================================================================
