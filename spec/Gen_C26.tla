------------------------------ MODULE Gen_C26 ------------------------------
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
NV == IF Quick THEN 0..2 ELSE 0..19
B == BOOLEAN
Bit(b) == IF b THEN 1 ELSE 0
Int1 == {[op |-> "interferometer", n |-> n, real |-> Bit(r), v |-> v] : n \in 1..8, r \in B, v \in NV}
Sym == {[op |-> "symplectic", n |-> n, passive |-> Bit(p), block |-> Bit(b), scale |-> s, v |-> v] : n \in 1..5, p \in B, b \in B, s \in {"1", "0", "0.1", "2"}, v \in NV}
Cov == {[op |-> "covariance", n |-> n, pure |-> Bit(p), block |-> Bit(b), h |-> h, v |-> v] : n \in 1..4, p \in B, b \in B, h \in {"2", "1", "0.5", "3.7"}, v \in NV}
Blk == {[op |-> "block", n |-> n, top |-> Bit(t), real |-> Bit(r), v |-> v] : n \in 1..9, t \in B, r \in B, v \in NV}
Ban == {x \in {[op |-> "banded", n |-> n, w |-> w, top |-> Bit(t), real |-> Bit(r), v |-> v] : n \in 1..8, w \in 0..8, t \in B, r \in B, v \in (IF Quick THEN 0..0 ELSE 0..9)} : x.w <= x.n + 1}
Def == {[op |-> "default", f |-> f, n |-> n] : f \in {"interferometer", "symplectic", "covariance", "block", "banded"}, n \in 2..5}
Haar == {[op |-> "haar", n |-> n, real |-> Bit(r), via |-> w] : n \in 1..4, r \in B, w \in {"interferometer", "block", "symplectic", "banded"}}
Same == {[op |-> "same", f |-> f, n |-> n, v |-> v] : f \in {"interferometer", "symplectic", "covariance", "block", "banded"}, n \in 3..4, v \in NV}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Int1) \o SetToSeq(Sym) \o SetToSeq(Cov) \o SetToSeq(Blk) \o SetToSeq(Ban) \o SetToSeq(Def) \o SetToSeq(Haar) \o SetToSeq(Same))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
