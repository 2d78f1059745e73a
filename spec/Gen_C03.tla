------------------------------ MODULE Gen_C03 ------------------------------
(* Call space of C03: all sparsity patterns on up to 4 vertices (edges and   *)
(* loops), all bandwidths and band-gap patterns, sub-index sets, and factor  *)
(* shapes for the low-rank algorithm.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
DTs  == <<"real", "complex", "int", "imag", "posint">>
Pairs(n) == {<<i, j>> \in (0..n - 1) \X (0..n - 1) : i < j}
Flat(S) == SetToSeq(S)
(* exhaustive small graphs *)
Small(n) == {[op |-> o, n |-> n, edges |-> Flat(E), loops |-> l, loop |-> l > 0, dt |-> DTs[((Cardinality(E) + l + n) % 5) + 1], w |-> 0, r |-> 0, sub |-> <<>>, hassub |-> FALSE, v |-> 0]
             : o \in {"sparse", "banded", "bandwidth"}, E \in SUBSET Pairs(n), l \in 0..2}
(* banded patterns: which of the off-diagonals 0..w are present *)
Bands == {[op |-> o, n |-> n, edges |-> <<>>, loops |-> l, loop |-> lp, dt |-> DTs[((n + Cardinality(B) + l) % 5) + 1], w |-> 1, r |-> 0, sub |-> Flat(B), hassub |-> FALSE, v |-> l]
          : o \in {"banded", "bandwidth", "sparse"}, n \in (IF Quick THEN 5..8 ELSE 5..10), l \in 1..2, lp \in BOOLEAN, B \in SUBSET (1..4)}
(* random patterns with an index subset *)
Subs == {[op |-> "sparse", n |-> n, edges |-> <<>>, loops |-> 2, loop |-> lp, dt |-> DTs[((n + v) % 5) + 1], w |-> 2, r |-> 0, sub |-> Flat(D), hassub |-> TRUE, v |-> v]
          : n \in 1..5, v \in 1..2, lp \in BOOLEAN, D \in SUBSET (0..3)}
SubsOK == {c \in Subs : \A i \in 1..Len(c.sub) : c.sub[i] < c.n}
Large == {[op |-> o, n |-> n, edges |-> <<>>, loops |-> 2, loop |-> lp, dt |-> DTs[((n + v) % 5) + 1], w |-> 2, r |-> 0, sub |-> <<>>, hassub |-> FALSE, v |-> v]
          : o \in {"sparse", "banded", "bandwidth"}, n \in (IF Quick THEN 5..9 ELSE 5..11), v \in (IF Quick THEN 1..4 ELSE 1..20), lp \in BOOLEAN}
Low == {[op |-> "lowrank", n |-> n, edges |-> <<>>, loops |-> 0, loop |-> FALSE, dt |-> DTs[((n + r + v) % 5) + 1], w |-> 0, r |-> r, sub |-> <<>>, hassub |-> FALSE, v |-> v]
          : n \in 0..6, r \in 1..4, v \in (IF Quick THEN 0..2 ELSE 0..8)}
Calls == UNION {Small(n) : n \in 0..4} \cup Bands \cup SubsOK \cup Large \cup Low
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Calls))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
