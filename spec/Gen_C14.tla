------------------------------ MODULE Gen_C14 ------------------------------
(***************************************************************************)
(* Moments: state kind x displacement x hbar x which modes / powers.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
Hb == <<"2", "1", "0.5", "1.7">>
Kinds == <<"mixed", "pure", "thermal", "product", "partvac", "squeezed", "vacuum", "tmsv">>
Disp == <<"some", "none", "one", "tiny">>
H(i) == Hb[(i % 4) + 1]
NV == IF Quick THEN 0..0 ELSE 0..4
Base(n) == {[n |-> n, kind |-> Kinds[k], disp |-> Disp[d], hb |-> H(k + d + n + v), v |-> v] :
                 k \in 1..Len(Kinds), d \in 1..Len(Disp), v \in NV}
(* all distinct sequences of modes *)
Lists(n) == UNION {{s \in [1..k -> 0..(n - 1)] : \A a, b \in 1..k : a # b => s[a] # s[b]} : k \in 1..n}
All == UNION {Base(n) : n \in 1..(IF Quick THEN 4 ELSE 5)}
Closed == {[op |-> "closed", s |-> s] : s \in All}
Clicks == {[op |-> "clicks", s |-> s] : s \in {b \in All : b.disp = "none"} }
ExpL == {[op |-> "expect", s |-> x[1], m |-> x[2]] : x \in UNION {{<<s, m>> : m \in Lists(s.n)} : s \in {b \in All : b.n <= 3 /\ b.disp \in {"some", "none"}}}}
(* powers 0..3 of every mode (9: mode absent from the dictionary) *)
Pows(n) == IF n = 1 THEN [1..1 -> {9, 0, 1, 2, 3, 4}] ELSE IF n = 2 THEN [1..2 -> {9, 0, 1, 2, 3}]
           ELSE {p \in [1..n -> {9, 0, 1, 2}] : (p[1] + 2 * p[2] + 5 * p[3]) % 4 = 0}
Mom == {[op |-> "moment", s |-> x[1], p |-> x[2]] : x \in UNION {{<<s, p>> : p \in Pows(s.n)} : s \in {b \in All : b.n <= 3 /\ b.disp \in {"some", "none"} /\ b.kind \in {"mixed", "pure", "partvac"}}}}
Rpts(n) == IF n = 1 THEN [1..2 -> 0..4] ELSE IF n = 2 THEN {r \in [1..4 -> 0..2] : TRUE} ELSE {r \in [1..6 -> 0..2] : (r[1] + r[2] * 2 + r[3] * 3 + r[4] * 5 + r[5] * 7 + r[6] * 11) % 13 = 0}
Ord == {[op |-> "order", s |-> x[1], r |-> x[2]] : x \in UNION {{<<s, r>> : r \in Rpts(s.n)} : s \in {b \in All : b.n <= 3 /\ b.disp \in {"some", "none", "one"} /\ b.kind \in {"mixed", "squeezed"}}}}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Closed) \o SetToSeq(Clicks) \o SetToSeq(ExpL) \o SetToSeq(Mom) \o SetToSeq(Ord))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
