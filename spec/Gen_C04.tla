------------------------------ MODULE Gen_C04 ------------------------------
(* Call space of C04: all cutoff vectors up to the bounds (scalar cutoffs    *)
(* included) x operation x renorm x tensor/flat x argument options.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
DTs  == <<"real", "complex", "int", "f32", "imag">>
CK == <<"tuple", "list", "array", "tuple">>
Cs == <<"one", "half", "cplx", "int", "big">>
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
W(s) == Sum([i \in 1..Len(s) |-> (2 * i + 1) * s[i]], Len(s))
Cuts == IF Quick THEN [1..1 -> 1..6] \cup [1..2 -> 1..4] \cup [1..3 -> 1..3] \cup [1..4 -> 1..2]
        ELSE [1..1 -> 1..12] \cup [1..2 -> 1..7] \cup [1..3 -> 1..4] \cup [1..4 -> 1..3]
Const(s) == \A i \in 1..Len(s) : s[i] = s[1]
Yk == <<"none", "real", "same", "zero">>
Rec(op, c, rn, mt, k) ==
  [op |-> op, n |-> Len(c), cut |-> c,
   ck |-> IF Const(c) /\ k % 2 = 0 THEN "scalar" ELSE CK[((W(c) + k) % 4) + 1],
   renorm |-> rn, tensor |-> mt, modified |-> ((W(c) + k) % 3) # 0,
   y |-> Yk[((W(c) + 2 * k) % 4) + 1], dt |-> DTs[((W(c) + k) % 5) + 1], C |-> Cs[((W(c) + 3 * k) % 5) + 1], v |-> k]
Calls ==
  {Rec(op, c, rn, mt, k) : op \in {"hermite", "batched"}, c \in Cuts, rn \in BOOLEAN, mt \in BOOLEAN, k \in 0..2}
  \cup {Rec("interferometer", c, rn, mt, k) : c \in {c \in Cuts : Len(c) \in {2, 4} /\ (Len(c) = 2 \/ c[1] = 2)}, rn \in BOOLEAN, mt \in BOOLEAN, k \in 0..1}
  \cup {Rec("grad", c, rn, TRUE, k) : c \in {c \in Cuts : Len(c) <= 3}, rn \in BOOLEAN, k \in 0..0}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Calls))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
