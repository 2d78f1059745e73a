------------------------------ MODULE Gen_C07 ------------------------------
(* Call space of C07: torontonians of states of every order, click patterns of every state. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
(* kinds of states: generic mixed, pure, thermal (real O), product, vacuum in some modes, strongly squeezed *)
Kinds == <<"mixed", "pure", "thermal", "product", "partvac", "squeezed", "vacuum", "tmsv">>
Hbars == <<"2", "1", "0.5", "1.7">>
MaxN == IF Quick THEN 5 ELSE 7
V == IF Quick THEN 1..3 ELSE 1..8
Tor == {[op |-> o, n |-> n, kind |-> Kinds[k], rec |-> r, v |-> v, hb |-> Hbars[((n + k + v) % 4) + 1], dt |-> IF (n + v) % 3 = 0 THEN "real" ELSE "complex"]
        : o \in {"tor", "ltor", "ltor0"}, n \in 0..MaxN, k \in 1..8, r \in BOOLEAN, v \in V}
MaxT == IF Quick THEN 4 ELSE 5
Disp == <<"none", "all", "one", "tiny">>
Thr == {[op |-> "threshold", n |-> n, kind |-> Kinds[k], disp |-> Disp[d], v |-> v, hb |-> Hbars[((n + k + d + v) % 4) + 1], cont |-> (k + d + v) % 3]
        : n \in 1..MaxT, k \in 1..8, d \in 1..4, v \in (IF Quick THEN 1..2 ELSE 1..6)}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Tor) \o SetToSeq(Thr))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
