----------------------------- MODULE MC_Circuit -----------------------------
(***************************************************************************)
(* All circuits of at most Depth steps on NM modes over a gate set with    *)
(* rational coefficients.  Checked in every reachable state: the           *)
(* uncertainty relation; purity exactly when no lossy step occurred to a   *)
(* non-vacuum ...  (pure => det = 1, always det >= 1); and of every step:  *)
(* modes it does not address keep their moments, passive steps keep the    *)
(* total photon number, gates on disjoint modes commute.                   *)
(***************************************************************************)
EXTENDS GaussCircuit
CONSTANTS NM, Depth
VARIABLES q, k, lossy, prev, last
vars == <<q, k, lossy, prev, last>>
Ch == Frac(5, 4)
Sh == Frac(3, 4)
C == Frac(3, 5)
S == Frac(4, 5)
E1 == Cx(Frac(3, 5), Frac(4, 5))
Gates == {[g |-> "sq", e |-> e, w |-> <<i>>] : e \in {One, E1}, i \in 1..NM}
   \cup {[g |-> "rot", e |-> E1, w |-> <<i>>] : i \in 1..NM}
   \cup {[g |-> "disp", e |-> E1, w |-> <<i>>] : i \in 1..NM}
   \cup {[g |-> o, e |-> e, w |-> <<p[1], p[2]>>] : o \in {"bs", "tms"}, e \in {One, E1}, p \in {p \in (1..NM) \X (1..NM) : p[1] # p[2]}}
   \cup {[g |-> "loss", e |-> x, w |-> <<i>>] : x \in {Zero, Half}, i \in 1..NM}
Ap(s, h) == CASE h.g = "sq" -> SqueezeG(s, Ch, Sh, h.e, h.w[1])
              [] h.g = "rot" -> RotateG(s, h.e, h.w[1])
              [] h.g = "disp" -> DisplaceG(s, h.e, h.w[1])
              [] h.g = "bs" -> BeamSplitG(s, C, S, h.e, h.w[1], h.w[2])
              [] h.g = "tms" -> TwoModeSqueezeG(s, Ch, Sh, h.e, h.w[1], h.w[2])
              [] h.g = "loss" -> LossG(s, Frac(3, 5), h.e, h.w[1])
SameQ(x, y) == /\ \A i \in 1..Len(x.a) : Eq(x.a[i], y.a[i]) /\ \A j \in 1..Len(x.a) : Eq(x.n[i][j], y.n[i][j]) /\ Eq(x.m[i][j], y.m[i][j])
NoneG == [g |-> "none", e |-> One, w |-> <<>>]
Init == q = VacuumQ(NM) /\ k = 0 /\ lossy = FALSE /\ prev = q /\ last = NoneG
Next == /\ k < Depth
        /\ \E h \in Gates : /\ q' = Ap(q, h) /\ last' = h /\ prev' = q
                            /\ lossy' = (lossy \/ h.g = "loss")
        /\ k' = k + 1
Uncertainty == Valid(q)
PureWhenUnitary == IF lossy THEN Leq(One, PurityInv(q)) ELSE Eq(PurityInv(q), One)
Rest == SetSeq((1..NM) \ {last.w[i] : i \in 1..Len(last.w)})
OthersUntouched == SameQ(ReducedQ(q, Rest), ReducedQ(prev, Rest))
Total2(s) == SumF([i \in 1..NM |-> MeanPhotons(s, i)])
PassiveKeeps == last.g \in {"rot", "bs"} => Eq(Total2(q), Total2(prev))
LossNeverGains == last.g = "loss" /\ Eq(last.e, Zero) => Leq(Total2(q), Total2(prev))
(* the same step after, or before, a step on other modes *)
Commute == k = 1 => \A h \in Gates : (\A x \in 1..Len(h.w), y \in 1..Len(last.w) : h.w[x] # last.w[y])
             => SameQ(Ap(q, h), Ap(Ap(prev, h), last))
(* conversion to quadratures and back *)
RoundTrip == LET V == VOf(q, Frac(7, 3)) IN
   /\ \A i, j \in 1..NM : Eq(NMat(V, Frac(7, 3))[i][j], q.n[i][j]) /\ Eq(MMat(V, Frac(7, 3))[i][j], q.m[i][j])
   /\ V = MT(V)
=============================================================================
