------------------------------ MODULE Gen_C16 ------------------------------
(***************************************************************************)
(* Inputs of the decompositions: structure x size x layout.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
NV == IF Quick THEN 0..5 ELSE 0..29
Spd == {"generic", "identity", "scaledid", "diag", "diagdeg", "pure", "thermaldeg", "neardeg", "product", "tms", "ill", "int", "classical", "graph", "xpcorr"}
Sym == {"generic", "identity", "diag", "diaginc", "diagdeg", "real", "realdiag", "realdeg", "imag", "phasereal", "phasedeg", "unitary", "degen", "neardeg", "singular",
        "rank1", "zero", "antidiag", "antidiagU", "gaussint", "blkint", "halfzero", "tinyim", "int", "negid", "iid", "f32", "lowertri", "permgraph"}
Sp == {"generic", "identity", "passive", "squeeze", "squeezedeg", "negsqueeze", "shear", "shearT", "xscale", "tms", "perm", "degen", "oneone", "rotsq", "cz", "inverse", "minusid"}
W == {[op |-> "williamson", n |-> n, kind |-> k, lay |-> l, v |-> v] : n \in 1..5, k \in Spd, l \in {"C", "F"}, v \in NV}
T == {[op |-> "takagi", n |-> n, kind |-> k, so |-> s, v |-> v] : n \in 1..(IF Quick THEN 6 ELSE 9), k \in Sym, s \in {"desc", "asc"}, v \in (IF Quick THEN 0..7 ELSE 0..49)}
B == {[op |-> o, n |-> n, kind |-> k, v |-> v] : o \in {"blochmessiah", "pre_iwasawa", "iwasawa"}, n \in 1..4, k \in Sp, v \in NV}
E == {[op |-> "eigenvals", n |-> n, kind |-> k, v |-> v] : n \in 1..6, k \in Spd, v \in NV}
R == {[op |-> "rej", kind |-> k] : k \in {"w_rect", "w_asym", "w_odd", "w_neg", "w_zero", "t_rect", "b_nonsymp", "p_nonsymp", "i_nonsymp", "b_odd"}}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(W) \o SetToSeq(T) \o SetToSeq(B) \o SetToSeq(E) \o SetToSeq(R))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
