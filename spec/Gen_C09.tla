------------------------------ MODULE Gen_C09 ------------------------------
(* Call space of C09. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
DTs == <<"real", "complex", "posint", "imag">>
Pats == <<"dense", "state", "sparse", "diagonly", "ones", "blocks", "graph">>
V == IF Quick THEN 1..3 ELSE 1..8
Mtl == {[op |-> o, n |-> n, dt |-> DTs[((n + p + v) % 4) + 1], pat |-> Pats[p], v |-> v]
        : o \in {"mtl", "lmtl", "ref", "refloop"}, n \in 1..(IF Quick THEN 5 ELSE 6), p \in 1..7, v \in V}
Small(c) == c.op \in {"ref", "refloop"} => c.n <= 4
RECURSIVE W(_, _)
W(s, k) == IF k = 0 THEN 0 ELSE (k + 1) * s[k] + W(s, k - 1)
Lists(N, L) == UNION {[1..l -> 0..(N - 1)] : l \in 1..L}
Hbars == <<"2", "1", "0.5", "1.7">>
States == <<"mixed", "pure", "product", "thermal">>
Cum(op, N, L) == {[op |-> op, N |-> N, modes |-> m, hb |-> Hbars[((W(m, Len(m)) + N) % 4) + 1], kind |-> States[((W(m, Len(m)) + Len(m)) % 4) + 1],
                   disp |-> (W(m, Len(m)) + Len(m) + v) % 2, cont |-> (W(m, Len(m)) + v) % 3, v |-> v] : m \in Lists(N, L), v \in 1..2}
Cums == IF Quick THEN Cum("photon", 1, 4) \cup Cum("photon", 2, 4) \cup Cum("photon", 3, 3) \cup Cum("click", 1, 4) \cup Cum("click", 2, 4) \cup Cum("click", 3, 4)
        ELSE Cum("photon", 1, 6) \cup Cum("photon", 2, 5) \cup Cum("photon", 3, 4) \cup Cum("photon", 4, 4) \cup Cum("click", 1, 5) \cup Cum("click", 2, 5) \cup Cum("click", 3, 5) \cup Cum("click", 4, 4)
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq({c \in Mtl : Small(c)}) \o SetToSeq(Cums))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
