------------------------------ MODULE Gen_C19 ------------------------------
(***************************************************************************)
(* Runs of the samplers: states x hbar x cutoffs x fan-out.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
S(n, k, d, h, v) == [n |-> n, kind |-> k, disp |-> d, hb |-> h, v |-> v]
Pures == {"pure", "squeezed", "product", "tmsv", "vacuum"}
NV == IF Quick THEN 0..2 ELSE 0..11
StepsH == {[op |-> "steps_h", s |-> S(n, k, d, h, v), cut |-> c] : n \in 1..4, k \in Pures, d \in {"none", "all", "one"}, h \in {"2", "1", "0.5", "3.1"}, v \in NV, c \in {3, 5}}
StepsT == {[op |-> "steps_t", s |-> S(n, k, d, h, v), cut |-> x[2], f |-> x[1]] :
             n \in (IF Quick THEN 1..3 ELSE 1..4), k \in {"pure", "squeezed", "product", "tmsv"}, d \in {"none", "all", "one"}, h \in {"2", "1", "3.1"}, v \in (IF Quick THEN {0} ELSE 0..5), x \in {<<1, 3>>, <<3, 1>>, <<10, 1>>, <<2, 2>>}}
Prefix == {[op |-> "prefix", s |-> S(n, "mixed", d, h, v), cut |-> c] : n \in 1..3, d \in {"none", "all"}, h \in {"2", "0.5"}, v \in 0..1, c \in {1, 2, 4}}
LawH1 == {[op |-> "law_h", s |-> S(1, k, d, h, 0), cut |-> 7] : k \in {"mixed", "pure", "thermal"}, d \in {"all", "none"}, h \in {"2", "1", "3.1"}}
LawH2 == {[op |-> "law_h", s |-> S(2, x[1], x[2], x[3], v), cut |-> 5] : x \in (IF Quick THEN {} ELSE {<<"mixed", "none", "2">>, <<"mixed", "one", "3.1">>}) \cup {<<"mixed", "all", "2">>, <<"mixed", "all", "0.5">>, <<"pure", "all", "2">>, <<"product", "all", "1">>}, v \in (IF Quick THEN {0} ELSE 0..3)}
LawH3 == {[op |-> "law_h", s |-> S(3, "mixed", "all", h, v), cut |-> 3] : h \in {"2", "1.3"}, v \in (IF Quick THEN {0} ELSE 0..3)}
LawT1 == {[op |-> "law_t", s |-> S(1, k, d, h, 0), cut |-> x[2], f |-> x[1]] : k \in {"mixed", "pure"}, d \in {"all"}, h \in {"2", "0.7"}, x \in {<<1, 7>>, <<3, 4>>}}
LawT2 == {[op |-> "law_t", s |-> S(2, x[1], x[2], x[3], v), cut |-> y[2], f |-> y[1]] : x \in (IF Quick THEN {} ELSE {<<"mixed", "none", "1">>, <<"pure", "all", "2">>}) \cup {<<"mixed", "all", "2">>, <<"mixed", "all", "3.1">>}, y \in {<<1, 5>>, <<2, 3>>}, v \in (IF Quick THEN {0} ELSE 0..3)}
LawT3 == {[op |-> "law_t", s |-> S(3, "mixed", "all", h, v), cut |-> 3, f |-> 1] : h \in {"2", "1.3"}, v \in (IF Quick THEN {0} ELSE 0..3)}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(StepsH) \o SetToSeq(StepsT) \o SetToSeq(Prefix) \o SetToSeq(LawH1 \cup LawH2 \cup LawH3) \o SetToSeq(LawT1 \cup LawT2 \cup LawT3))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
