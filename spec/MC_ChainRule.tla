---------------------------- MODULE MC_ChainRule ----------------------------
(***************************************************************************)
(* Why the chain-rule samplers are exact.  Each mode can be measured in    *)
(* one of two ways: H ("heterodyne") or N (counting).  All joint laws of   *)
(* one measurement per mode come from the same state, here a mixture over  *)
(* lam of product laws (any consistent family would do).                   *)
(* The machine draws all H outcomes, then for k = 1..M replaces H on mode  *)
(* k by N drawn from p(n_k | n_<k, h_>k), forgetting h_k.                  *)
(* W is the law of the machine's state, exactly; the invariant is that it  *)
(* is the law of measuring N on the modes 1..k and H on the others.        *)
(* The same step with rejection: conditioning on n_k <= c at each step     *)
(* changes the law by at most the probability of an overflow (total        *)
(* variation), which is the tolerance TailBound of Samplers.tla.           *)
(***************************************************************************)
EXTENDS ExactNum, TLC
M == 3
Lam == 1..2
Wl == <<Frac(1, 3), Frac(2, 3)>>
Out == 0..2
Hs == 0..1
(* conditional laws given lam, different for every mode *)
PN(k, l, n) == CASE n = 0 -> Frac(k, 8 + l) [] n = 1 -> Frac(l, 9) [] OTHER -> (One -- Frac(k, 8 + l)) -- Frac(l, 9)
PH(k, l, h) == IF h = 0 THEN Frac(k + l, 7) ELSE One -- Frac(k + l, 7)
(* the law of measuring N on modes 1..k (outcomes x[1..k]), H on the rest *)
Joint(k, x) == SumF([l \in Lam |-> Wl[l] ** ProdF([j \in 1..M |-> IF j <= k THEN PN(j, l, x[j]) ELSE PH(j, l, x[j])])])
Ctx(k) == {x \in [1..M -> Out] : \A j \in (k + 1)..M : x[j] \in Hs}
(* p(n_k = n | n_<k, h_>k) *)
Cond(k, x, n) == Joint(k, [x EXCEPT ![k] = n]) // SumF([m \in Out |-> Joint(k, [x EXCEPT ![k] = m])])
CondC(k, x, n, c) == IF n > c THEN Zero ELSE Cond(k, x, n) // SumF([m \in 0..c |-> Cond(k, x, m)])
VARIABLES k, W, c
Step(x, j, P(_, _, _)) == SumF([h \in Hs |-> W[[x EXCEPT ![j] = h]]]) ** P(j, x, x[j])
Init == k = 0 /\ c \in {1, 2} /\ W = [x \in Ctx(0) |-> Joint(0, x)]
Next == k < M /\ k' = k + 1 /\ c' = c
        /\ W' = [x \in Ctx(k + 1) |-> Step(x, k + 1, LAMBDA j, y, n : CondC(j, y, n, c))]
Normalised == Eq(SumF(W), One)
Exact == c = 2 => \A x \in DOMAIN W : Eq(W[x], Joint(k, x))
Overflow == LET S == {x \in Ctx(k) : \E j \in 1..k : x[j] > c} IN SumF([x \in S |-> Joint(k, x)])
(* total variation distance to the exact law *)
TV == Half ** SumF([x \in DOMAIN W |-> Abs(W[x] -- Joint(k, x))])
Truncated == Leq(TV, Overflow ++ Tiny(40))
=============================================================================
