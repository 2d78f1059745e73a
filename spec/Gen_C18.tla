------------------------------ MODULE Gen_C18 ------------------------------
(***************************************************************************)
(* Gaussian unitaries: structure of S x displacement x options.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
Kinds == {"generic", "identity", "passive", "squeeze", "negsqueeze", "degen", "oneone", "perm", "tms", "shear", "xscale", "minusid", "rotsq", "inverse", "cz"}
Alphas == {"zero", "real", "complex", "imag", "first", "last", "int", "tiny"}
Chois == {"def", "0.3", "1.7"}
V == IF Quick THEN 0..1 ELSE 0..5
S1 == {[op |-> "tensor", n |-> 1, kind |-> k, alpha |-> a, choi |-> c, sf |-> f, cut |-> t, v |-> v] : k \in Kinds \ {"tms", "cz"}, a \in Alphas, c \in {"def", "1.7"}, f \in {FALSE}, t \in {1, 4}, v \in V}
S1b == {[op |-> "tensor", n |-> 1, kind |-> k, alpha |-> "complex", choi |-> c, sf |-> f, cut |-> 7, v |-> 0] : k \in Kinds \ {"tms", "cz"}, c \in Chois, f \in BOOLEAN}
S2 == {[op |-> "tensor", n |-> 2, kind |-> k, alpha |-> a, choi |-> c, sf |-> f, cut |-> 3, v |-> 0] : k \in Kinds, a \in (IF Quick THEN {"zero", "complex", "last", "int"} ELSE Alphas), c \in Chois, f \in BOOLEAN}
S2b == {[op |-> "tensor", n |-> 2, kind |-> k, alpha |-> a, choi |-> "def", sf |-> FALSE, cut |-> 4, v |-> v] : k \in {"generic", "passive", "oneone", "perm"}, a \in {"zero", "complex"}, v \in V}
S3 == {[op |-> "tensor", n |-> 3, kind |-> k, alpha |-> a, choi |-> "def", sf |-> f, cut |-> 2, v |-> 0] : k \in {"generic", "passive", "perm", "identity", "oneone"}, a \in {"zero", "complex"}, f \in BOOLEAN}
S3b == IF Quick THEN {} ELSE {[op |-> "tensor", n |-> 3, kind |-> k, alpha |-> a, choi |-> "def", sf |-> f, cut |-> 3, v |-> 1] : k \in {"generic", "passive"}, a \in {"zero", "complex"}, f \in BOOLEAN}
Rej == {[op |-> "reject", kind |-> k] : k \in {"nonsymp", "lowertri", "alphalen", "alphashort", "scaled"}}
       \cup {[op |-> "accept", kind |-> k] : k \in {"nocheck", "looseTol"}}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(S1 \cup S1b \cup S2 \cup S2b \cup S3 \cup S3b) \o SetToSeq(Rej))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
