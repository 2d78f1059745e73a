------------------------------ MODULE Gen_C25 ------------------------------
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
Etas == {"0", "1e-9", "0.1", "0.5", "0.77", "0.999", "1"}
Sq == {"0", "0.01", "0.3", "-0.7", "1", "2", "3"}
Total == {[op |-> "total", k |-> k, s |-> s, eta |-> e, pref |-> p] :
           k \in {1, 2, 3, 4, 7, 30}, s \in (IF Quick THEN Sq ELSE Sq \cup {"4", "-2.2", "1.3"}), e \in (IF Quick THEN Etas ELSE Etas \cup {"0.25", "0.9"}), p \in {"1", "0.8", "-1.5"}}
Chars == {[op |-> "char", k |-> k, s |-> s, eta |-> e, mu |-> m, pc |-> q] :
           k \in {1, 2, 5, 20}, s \in {"0", "0.01", "0.3", "-0.7", "1"}, e \in Etas, m \in {"0", "0.1", "-0.5", "-3"}, q \in {"none", "0", "1", "2", "3"}}
Chars3 == {[op |-> "char", k |-> k, s |-> s, eta |-> e, mu |-> m, pc |-> q] :
           k \in {1, 4}, s \in {"2", "3"}, e \in {"0.5", "0.9", "1"}, m \in {"0"}, q \in {"none", "1", "2"}}
Cut == {[op |-> "charcut", k |-> k, s |-> s, eta |-> e, mu |-> m, pc |-> q, it |-> it] :
           k \in {1, 3}, s \in {"0.5", "1"}, e \in {"0.5", "1"}, m \in {"0", "0.2"}, q \in {"none", "1", "2"}, it \in {1, 2, 3, 6, 11}}
Pure == {[op |-> "pure", n |-> n, kind |-> k, h |-> h, cut |-> c, pad |-> p, v |-> v] :
           n \in 1..4, k \in {"random", "vacuum", "tms", "strong", "partial"}, h \in {"2", "1", "0.5"}, c \in {1, 2, 5, 8, 13}, p \in 1..3, v \in (IF Quick THEN 0..0 ELSE 0..4)}
Impure == {[op |-> "impure", n |-> n, h |-> h, v |-> v] : n \in 1..3, h \in {"2", "1"}, v \in 0..1}
Shapes == {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<4, 4>>, <<2, 3>>, <<3, 2>>, <<1, 3>>, <<3, 1>>}
Mom == {[op |-> o, m |-> sh[1], n |-> sh[2], kind |-> k, v |-> v] : o \in {"means", "cov"}, sh \in Shapes, k \in {"haar", "lossy", "real", "zero"}, v \in (IF Quick THEN 0..2 ELSE 0..9)}
Samp == {[op |-> "sample", m |-> sh[1], n |-> sh[2], kind |-> k, c |-> c] : sh \in {<<1, 1>>, <<2, 2>>, <<3, 2>>, <<2, 3>>, <<1, 2>>}, k \in {"haar", "lossy", "dark"}, c \in (IF Quick THEN {3, 6} ELSE {2, 3, 4, 5, 6})}
Click == {[op |-> "clicks", m |-> sh[1], n |-> sh[2], kind |-> k, T |-> t, ng |-> 60, per |-> (IF Quick THEN 400 ELSE 4000)] : sh \in {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<3, 2>>, <<2, 3>>, <<4, 2>>}, k \in {"squeezed", "thermal", "squashed", "mixed", "one"}, t \in {"haar", "lossy", "real"}}
Sums == {[op |-> "sums", m |-> m, kind |-> k, ns |-> s, ng |-> g] : m \in 1..3, k \in {"squeezed", "vacuum", "thermal"}, s \in {1, 2, 3, 7, 10, 12}, g \in 1..7}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Total) \o SetToSeq(Chars \cup Chars3) \o SetToSeq(Cut) \o SetToSeq(Pure) \o SetToSeq(Impure) \o SetToSeq(Mom) \o SetToSeq(Samp) \o SetToSeq(Click) \o SetToSeq(Sums))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
