------------------------------ MODULE Gen_C24 ------------------------------
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
NV == IF Quick THEN 0..2 ELSE 0..14
Hb == {"2", "1", "0.5", "3.1"}
VN == {[op |-> "vonneumann", n |-> n, kind |-> k, h |-> h, v |-> v] : n \in 1..4, k \in {"mixed", "pure", "thermal", "product", "partial", "lossy", "vacuum"}, h \in Hb, v \in NV}
(* every bipartition of n modes, written in every way *)
Subs(n) == {S \in SUBSET (0..(n - 1)) : S # {} /\ S # 0..(n - 1)}
Perm(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
Parts(n) == UNION {Perm(S) : S \in Subs(n)}
Forms == {"list", "tuple", "array", "npints"}
EN == {[op |-> o, n |-> n, kind |-> k, part |-> p, form |-> f, h |-> h, v |-> v] :
        o \in {"entropy", "negativity"}, n \in 2..3, k \in {"a", "b"}, p \in Parts(3), f \in Forms, h \in {"2", "0.7"}, v \in (IF Quick THEN {0} ELSE 0..3)}
ENok == {x \in EN : \A i \in 1..Len(x.part) : x.part[i] < x.n /\ (Len(x.part) < x.n)}
EN4 == {[op |-> o, n |-> 4, kind |-> "a", part |-> p, form |-> "list", h |-> "2", v |-> 0] : o \in {"entropy", "negativity"}, p \in {q \in Parts(4) : Len(q) = 2}}
IntForms == {[op |-> o, n |-> n, kind |-> "a", part |-> <<j>>, form |-> "int", h |-> "2", v |-> v] : o \in {"entropy", "negativity"}, n \in {4}, j \in 0..3, v \in NV}
Split == {[op |-> o, n |-> n, kind |-> k, part |-> [i \in 1..s |-> i - 1], form |-> f, h |-> h, v |-> v] : o \in {"entropy", "negativity"}, n \in 4..4, k \in {"a"}, s \in 1..3, f \in {"split", "range"}, h \in Hb, v \in NV}
Fid == {[op |-> "fidelity", n |-> n, kind |-> k, disp |-> d, h |-> h, v |-> v] : n \in 1..3, k \in {"mixed", "pure", "onepure", "same", "samepure", "product", "vacuum", "thermal", "near"}, d \in {"none", "both", "equal"}, h \in Hb, v \in NV}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(VN) \o SetToSeq(ENok) \o SetToSeq(EN4 \cup IntForms \cup Split) \o SetToSeq(Fid))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
