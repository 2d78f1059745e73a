------------------------------ MODULE Gen_C17 ------------------------------
(***************************************************************************)
(* Gate tensors and gradients: gate x parameters x cutoff x precision.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
G1 == {"displacement", "squeezing"}
G2 == {"two_mode_squeezing", "beamsplitter", "mzgate"}
A == {"0", "1", "-0.6", "2.1", "0.001", "-1.3", "rnd"}
B == {"0", "0.7", "-2.5", "3.141592653589793", "9.3", "rnd"}
One1 == {[op |-> o, g |-> g, a |-> a, b |-> b, cut |-> c, dt |-> "c128"] : o \in {"gate", "grad"}, g \in G1, a \in A, b \in B, c \in (IF Quick THEN {1, 2, 3, 7} ELSE {1, 2, 3, 4, 5, 8, 13, 20})}
Two2 == {[op |-> o, g |-> g, a |-> a, b |-> b, cut |-> c, dt |-> "c128"] : o \in {"gate", "grad"}, g \in G2, a \in A, b \in B, c \in (IF Quick THEN {1, 2, 3, 4} ELSE 1..6)}
Big == {[op |-> o, g |-> g, a |-> "rnd", b |-> "rnd", cut |-> c, dt |-> "c128"] : o \in {"gate", "grad"}, g \in G2, c \in {5, 6}}
       \cup {[op |-> o, g |-> g, a |-> "rnd", b |-> "rnd", cut |-> c, dt |-> "c128"] : o \in {"gate", "grad"}, g \in G1, c \in {12, 25}}
Sgl == {[op |-> o, g |-> g, a |-> a, b |-> b, cut |-> 4, dt |-> "c64"] : o \in {"gate", "grad"}, g \in G1, a \in {"0", "rnd"}, b \in {"0.7", "rnd"}}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(One1 \cup Two2 \cup Big \cup Sgl))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
