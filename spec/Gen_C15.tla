------------------------------ MODULE Gen_C15 ------------------------------
(***************************************************************************)
(* Probability tensors of every small shape (equal and unequal cutoffs, up *)
(* to twelve modes) x loss / noise vectors; marginals, bounds and classical*)
(* subsystems of states.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
Shapes == {<<1>>, <<2>>, <<7>>, <<30>>} \cup [1..2 -> {1, 2, 3, 5}] \cup [1..3 -> 1..3] \cup [1..4 -> {2, 3}] \cup [1..4 -> {1, 2}]
       \cup {[i \in 1..n |-> 2] : n \in 5..12} \cup {<<2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 3>>}
Etas == {"mixed", "ones", "zeros", "one1", "near1", "near0", "oneaxis"}
DT == {"float", "int", "f32", "F", "strided"}
Loss == {[op |-> "loss", sh |-> s, et |-> t, dt |-> d] : s \in Shapes, t \in Etas, d \in {"float"}}
   \cup {[op |-> "loss", sh |-> s, et |-> "mixed", dt |-> d] : s \in {x \in Shapes : Len(x) <= 3}, d \in DT}
Noise == {[op |-> "noise", sh |-> s, nz |-> t, dt |-> d] : s \in Shapes, t \in {"same", "short", "long", "delta", "oneaxis"}, d \in {"float"}}
   \cup {[op |-> "noise", sh |-> s, nz |-> "same", dt |-> d] : s \in {x \in Shapes : Len(x) <= 3}, d \in DT}
Mat == {[op |-> "lossmat", eta |-> e, cut |-> c] : e \in {"0", "1", "0.5", "0.1", "0.9", "1e-9", "0.999", "0.999999999", "0.9999999999999999", "1e-300"}, c \in {0, 1, 2, 5, 12, 40}}
   \cup {[op |-> "lossmat", eta |-> e, cut |-> c] : e \in {"0.99", "0.01", "0.7"}, c \in {170}}
Rej == {[op |-> "rej", kind |-> k] : k \in {"lossneg", "lossbig", "losslen", "noiselen", "nbig", "nodd", "nshape", "tvdinvalid"}}
Hb == <<"2", "1", "0.5", "1.7">>
H(i) == Hb[(i % 4) + 1]
Kinds == <<"mixed", "pure", "thermal", "partvac">>
S(n, k, v) == [n |-> n, kind |-> Kinds[k], disp |-> IF v % 2 = 0 THEN "some" ELSE "none", hb |-> H(n + k + v), v |-> v]
Marg == {[op |-> "marg", s |-> S(x[1], k, v), n |-> x[2], cut |-> x[3]] : k \in 1..4, v \in (IF Quick THEN 0..0 ELSE 0..3),
           x \in {<<1, 1, 4>>, <<2, 1, 3>>, <<2, 2, 3>>, <<3, 1, 2>>, <<3, 2, 3>>, <<3, 3, 2>>, <<3, 3, 3>>, <<4, 3, 2>>}}
    \cup {[op |-> "marg", s |-> S(10, 3, 0), n |-> 2, cut |-> 2], [op |-> "marg", s |-> S(9, 1, 1), n |-> 2, cut |-> 2], [op |-> "marg", s |-> S(4, 2, 0), n |-> 4, cut |-> 2]}
Tvd == {[op |-> "tvd", s |-> S(n, k, v), cut |-> c] : n \in 1..4, k \in 1..4, v \in 0..1, c \in {1, 2, 6}}
(* leading classical modes: j of n classical, correlations between them or not *)
Cls == {[op |-> "classical", n |-> n, j |-> j, kind |-> k, hb |-> H(n + j + v), v |-> v] : n \in 1..6, j \in 0..6, k \in {"thermalmix", "product", "vac", "pair", "generic"}, v \in 0..1}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Loss) \o SetToSeq(Noise) \o SetToSeq(Mat) \o SetToSeq(Rej) \o SetToSeq(Marg) \o SetToSeq(Tvd) \o SetToSeq({c \in Cls : c.j <= c.n}))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
