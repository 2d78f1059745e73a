------------------------------ MODULE Gen_C08 ------------------------------
(* Call space of C08. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Vecs(n, k, t) == {s \in [1..n -> 0..k] : Sum(s, n) <= t}
W(s) == Sum([i \in 1..Len(s) |-> (i + 1) * s[i]], Len(s))
DTs == <<"real", "complex", "imag">>
Lays == <<"C", "F", "strided">>
EKinds == <<"herm", "zero", "diag", "ident">>
(* brs(A, E): A is m x n, E is n x n *)
Brs == {[op |-> "brs", m |-> m, n |-> n, dt |-> DTs[((m + n + v) % 3) + 1], ek |-> EKinds[e], lay |-> Lays[((m + 2 * n + v + e) % 3) + 1], v |-> v]
        : m \in 0..(IF Quick THEN 5 ELSE 7), n \in 0..(IF Quick THEN 5 ELSE 6), e \in 1..4, v \in 1..(IF Quick THEN 1 ELSE 4)}
Ubrs == {[op |-> "ubrs", m |-> m, n |-> n, dt |-> DTs[((m + n + v) % 3) + 1], ek |-> "none", lay |-> Lays[((m + 2 * n + v) % 3) + 1], v |-> v]
        : m \in 0..(IF Quick THEN 5 ELSE 7), n \in 0..(IF Quick THEN 5 ELSE 6), v \in 1..3}
(* threshold statistics of every Fock input: all patterns are asked for *)
Ins == IF Quick THEN Vecs(1, 4, 4) \cup Vecs(2, 3, 4) \cup Vecs(3, 3, 4) \cup Vecs(4, 2, 3)
       ELSE Vecs(1, 5, 5) \cup Vecs(2, 4, 5) \cup Vecs(3, 3, 4) \cup Vecs(4, 2, 4) \cup Vecs(5, 1, 3)
Ts == <<"unitary", "uniform", "nonuniform", "fewerout", "perm", "realU", "onelost", "singular", "weak2", "weak3", "weak4", "weak5", "weakone", "strong4">>
Fock == {[op |-> "fock", n |-> n, t |-> Ts[((W(n) + 4 * v) % Len(Ts)) + 1], cont |-> (W(n) + v) % 3, v |-> v] : n \in Ins, v \in 1..(IF Quick THEN 4 ELSE 14)}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Brs) \o SetToSeq(Ubrs) \o SetToSeq(Fock))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
