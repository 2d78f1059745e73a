------------------------------ MODULE Gen_C02 ------------------------------
(* Call space of C02: all repetition vectors up to the bounds, each with     *)
(* loops on/off, both sieves, diagonal argument given or not.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
DTs  == <<"real", "complex", "int", "imag", "posint", "f32">>
Conts == <<"list", "tuple", "array">>
Lays == <<"C", "F", "strided", "ro">>
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
W(s) == Sum([i \in 1..Len(s) |-> (i + 1) * s[i]], Len(s))
Vecs(n, k, t) == {s \in [1..n -> 0..k] : Sum(s, n) <= t}
Rpts == IF Quick
        THEN Vecs(1, 14, 14) \cup Vecs(2, 6, 9) \cup Vecs(3, 4, 7) \cup Vecs(4, 3, 6) \cup Vecs(5, 2, 5)
        ELSE Vecs(1, 24, 24) \cup Vecs(2, 10, 14) \cup Vecs(3, 6, 10) \cup Vecs(4, 4, 9) \cup Vecs(5, 3, 8) \cup Vecs(6, 2, 8)
Pick(r, k, s) == ((W(r) + k) % Len(s)) + 1
Pats == <<"dense", "dense", "diag", "zeromat", "zerorow", "offdiag">>
HR == {[op |-> "hafnian_repeated", rpt |-> r, loop |-> l, glynn |-> g, mu |-> m,
        dt |-> DTs[Pick(r, (IF g THEN 1 ELSE 0) + (IF m THEN 2 ELSE 0), DTs)],
        cont |-> Conts[Pick(r, IF l THEN 1 ELSE 0, Conts)],
        lay |-> Lays[Pick(r, IF m THEN 1 ELSE 0, Lays)],
        pat |-> Pats[Pick(r, (IF m THEN 1 ELSE 0) + (IF l THEN 3 ELSE 0), Pats)]]
        : r \in Rpts, l \in BOOLEAN, g \in BOOLEAN, m \in BOOLEAN}
LH == {[c EXCEPT !.op = "loop_hafnian"] : c \in {c \in HR : c.loop /\ c.mu}}
RD == {[c EXCEPT !.op = "reduction"] : c \in {c \in HR : ~c.loop /\ c.glynn}}
Calls == HR \cup LH \cup RD
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Calls))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
