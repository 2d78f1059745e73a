------------------------------ MODULE Gen_C05 ------------------------------
(* Call space of C05: all fixed repetition vectors and cutoffs up to bounds. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
DTs  == <<"real", "complex", "int", "imag">>
Pats == <<"dense", "zeroD", "zerolast", "zeromat", "sparse">>
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
W(s) == Sum([i \in 1..Len(s) |-> (i + 1) * s[i]], Len(s))
Vecs(n, k, t) == {s \in [1..n -> 0..k] : Sum(s, n) <= t}
Fixed == IF Quick THEN {<<>>} \cup Vecs(1, 7, 7) \cup Vecs(2, 4, 6) \cup Vecs(3, 3, 5) \cup Vecs(4, 2, 4)
         ELSE {<<>>} \cup Vecs(1, 12, 12) \cup Vecs(2, 6, 9) \cup Vecs(3, 4, 7) \cup Vecs(4, 3, 6) \cup Vecs(5, 2, 6)
Ks == IF Quick THEN 0..5 ELSE 0..8
Calls == {[op |-> o, fix |-> f, K |-> k, glynn |-> g, nb |-> ((W(f) + k) % 3) + 1,
           dt |-> DTs[((W(f) + 2 * k + (IF g THEN 1 ELSE 0)) % 4) + 1], pat |-> Pats[((W(f) + k + (IF g THEN 2 ELSE 0)) % 5) + 1]]
           : o \in {"batch", "gamma"}, f \in Fixed, k \in Ks, g \in BOOLEAN}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Calls))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
