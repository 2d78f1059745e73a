------------------------------ MODULE Gen_C12 ------------------------------
(***************************************************************************)
(* Conversions on states of every kind x number of modes x hbar; orderings *)
(* on every small size and a few large ones; predicates on states shifted  *)
(* across every boundary; every photon statistic at two values of hbar.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
Hb == {"2", "1", "0.5", "1.7", "10"}
Kinds == {"mixed", "pure", "thermal", "product", "partvac", "squeezed", "vacuum", "tmsv"}
NV == IF Quick THEN 0..1 ELSE 0..5
Conv == {[op |-> "conv", n |-> n, kind |-> k, hb |-> h, v |-> v, lay |-> l] :
            n \in 1..(IF Quick THEN 4 ELSE 6), k \in Kinds, h \in Hb, v \in NV, l \in {"C", "F"}}
Order == {[op |-> "order", n |-> n, kind |-> k, dt |-> d] :
            n \in 0..12, k \in {"vec", "mat"}, d \in {"int", "real", "complex"}}
     \cup {[op |-> "order", n |-> n, kind |-> k, dt |-> "int"] : n \in {1, 2, 3, 5, 7, 9, 21}, k \in {"rect", "oddmat"}}
     \cup {[op |-> "order", n |-> n, kind |-> "oddvec", dt |-> "int"] : n \in {1, 3, 5, 7, 21}}
Shifts == {"none", "-1e-2", "-1e-6", "-3e-8", "+3e-8", "+1e-3", "asym", "asymtiny"}
Pred == {[op |-> "pred", n |-> n, kind |-> k, hb |-> h, sh |-> s, tol |-> t, v |-> v] :
            n \in 1..(IF Quick THEN 3 ELSE 5), k \in Kinds \ {"product"}, h \in Hb, s \in Shifts, t \in {"default", "loose"}, v \in NV}
Symp == {[op |-> "symp", n |-> n, kind |-> k, v |-> v] : n \in 1..5,
            k \in {"generic", "passive", "diag", "perm", "transpose", "scaled", "tinyoff", "bigoff", "xpxp", "rot", "notsq", "odd", "int", "scaledneg", "antisymp"}, v \in NV}
Covary == {[op |-> "covary", n |-> n, kind |-> k, hb |-> h, v |-> v] :
            n \in 1..(IF Quick THEN 3 ELSE 4), k \in {"mixed", "pure", "thermal", "partvac", "tmsv"}, h \in (Hb \cup {"0.1"}) \ {"2"}, v \in NV}
Sizes == {[op |-> "sizes", n |-> n, hb |-> h] : n \in 0..8, h \in Hb}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Conv) \o SetToSeq(Order) \o SetToSeq(Pred) \o SetToSeq(Symp) \o SetToSeq(Covary) \o SetToSeq(Sizes))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
