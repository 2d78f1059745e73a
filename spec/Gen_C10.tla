------------------------------ MODULE Gen_C10 ------------------------------
(* Call space of C10: every order, entry pattern and requested power. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
Pats == <<"dense", "diag", "upper", "lower", "nilpotent", "jordan", "ident", "rank1", "zero", "companion", "hermitian", "zerocols", "blockperm", "repeated", "orthogonal", "hessenberg", "tiny", "sparse">>
DTs  == <<"real", "complex", "f32", "c64", "imag">>
Lays == <<"C", "F", "strided">>
MaxN == IF Quick THEN 7 ELSE 9
V == IF Quick THEN 1..3 ELSE 1..8
Char == {[op |-> "charpoly", n |-> n, pat |-> Pats[p], dt |-> DTs[((n + 2 * p + v) % 5) + 1], lay |-> Lays[((n + p + 2 * v) % 3) + 1], pw |-> 0, v |-> v]
         : n \in 0..MaxN, p \in 1..18, v \in V}
Pow == {[op |-> "powertrace", n |-> n, pat |-> Pats[p], dt |-> DTs[((n + 2 * p + k) % 5) + 1], lay |-> Lays[((n + p + k) % 3) + 1], pw |-> k, v |-> 1]
         : n \in 0..(MaxN - 1), p \in 1..18, k \in 0..(IF Quick THEN 9 ELSE 14)}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Char) \o SetToSeq(Pow))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
