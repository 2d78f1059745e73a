------------------------------ MODULE Gen_C21 ------------------------------
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
Kinds == {"er", "int", "weighted", "neg", "complex", "diag", "rank1", "iso", "bip", "ident", "scaled", "tiny"}
NV == IF Quick THEN 0..1 ELSE 0..9
Ts == {"0.01", "0.5", "1", "3", "20", "1000"}
Scal == {[op |-> o, n |-> n, kind |-> k, t |-> t, v |-> v] : o \in {"adj_scaling", "adj_to_qmat"}, n \in {1, 2, 3, 4, 6}, k \in Kinds, t \in Ts, v \in NV}
(* fraction of the largest attainable number of clicks *)
Tor == {[op |-> "adj_scaling_torontonian", n |-> n, kind |-> k, t |-> t, v |-> v] : n \in {1, 2, 3, 4, 6}, k \in Kinds, t \in {"0.02", "0.3", "0.6", "0.9"}, v \in NV}
Unatt == {[op |-> "unattainable", n |-> n, kind |-> "iso", t |-> t, v |-> v] : n \in {2, 3, 4, 6}, t \in {"0.5", "0.1"}, v \in NV}
Therm == {[op |-> "rescale", n |-> n, kind |-> k, t |-> t, sc |-> s, v |-> v] : n \in {1, 2, 3, 5}, k \in {"psd", "psdlow", "gram", "degenerate", "diagpsd", "intpsd"}, t \in Ts, s \in {"thermal", "1", "2", "1.7"}, v \in NV}
Steps == {[op |-> o, n |-> n, kind |-> k, t |-> t, v |-> v] : o \in {"steps_h", "steps_t"}, n \in 1..4, k \in {"er", "weighted", "complex", "neg", "iso"}, t \in {"0.4", "1.5"}, v \in NV}
Pns == {[op |-> "pns", n |-> n, c |-> c, kind |-> k, oob |-> o, v |-> v] : n \in 1..4, c \in 1..4, k \in {"point", "random", "sub", "sparse", "scaled"}, o \in {"no", "none", "minus1", "str", "zero"}, v \in 0..1}
PnsLaw == {[op |-> "pnslaw", n |-> n, c |-> c, oob |-> o] : n \in 1..2, c \in 2..3, o \in {"no", "minus1"}}
Laws == {[op |-> o, n |-> n, h |-> h, d |-> d, v |-> v] : o \in {"classical_h", "classical_t"}, n \in 1..2, h \in {"2", "0.8"}, d \in BOOLEAN, v \in (IF Quick THEN {0} ELSE 0..3)}
     \cup {[op |-> "thermal", n |-> n, v |-> v] : n \in 1..3, v \in (IF Quick THEN {0} ELSE 0..3)}
     \cup {[op |-> "rankone", n |-> n, t |-> t, v |-> v] : n \in 1..3, t \in {"0.3", "1"}, v \in (IF Quick THEN {0} ELSE 0..3)}
Rates == {[op |-> "rates", n |-> n, v |-> v] : n \in 1..4, v \in 0..3}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Scal) \o SetToSeq(Tor \cup Unatt) \o SetToSeq(Therm) \o SetToSeq(Steps) \o SetToSeq(Pns) \o SetToSeq(PnsLaw) \o SetToSeq(Laws) \o SetToSeq(Rates))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
