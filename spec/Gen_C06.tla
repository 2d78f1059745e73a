------------------------------ MODULE Gen_C06 ------------------------------
(* Call space of C06: permanents of every order, repetition vectors, Fock inputs. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
Pats == <<"dense", "zerorow", "zerocol", "dup", "ones", "diag", "perm", "rank1", "signs", "zeromat">>
DTs  == <<"real", "complex", "int", "imag", "posint", "f32", "c64">>
Lays == <<"C", "F", "strided", "rev", "ro">>
Ms == <<"bbfg", "ryser">>
MaxN == IF Quick THEN 9 ELSE 12
V == IF Quick THEN 1..3 ELSE 1..7
PermCalls == {[op |-> "perm", n |-> n, method |-> Ms[m], pat |-> Pats[p], dt |-> DTs[((n + 2 * p + 3 * m + v) % 7) + 1],
               lay |-> Lays[((n + p + 2 * v) % 5) + 1], v |-> v] : n \in 0..MaxN, m \in 1..2, p \in 1..10, v \in V}
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Vecs(n, k, t) == {s \in [1..n -> 0..k] : Sum(s, n) <= t}
Reps == IF Quick THEN Vecs(1, 6, 6) \cup Vecs(2, 4, 6) \cup Vecs(3, 3, 5) \cup Vecs(4, 2, 4)
        ELSE Vecs(1, 8, 8) \cup Vecs(2, 5, 8) \cup Vecs(3, 4, 7) \cup Vecs(4, 3, 6) \cup Vecs(5, 2, 5)
W(s) == Sum([i \in 1..Len(s) |-> (i + 1) * s[i]], Len(s))
RepCalls == {[op |-> "permanent_repeated", rpt |-> r, dt |-> DTs[((W(r) + v) % 5) + 1], pat |-> Pats[((W(r) + 3 * v) % 10) + 1],
              cont |-> ((W(r) + v) % 3), v |-> v] : r \in Reps, v \in 1..2}
(* every input of up to N photons; all outputs of the same photon number are asked for *)
Ins == IF Quick THEN Vecs(1, 4, 4) \cup Vecs(2, 4, 5) \cup Vecs(3, 4, 4) \cup Vecs(4, 3, 3)
       ELSE Vecs(1, 6, 6) \cup Vecs(2, 6, 7) \cup Vecs(3, 5, 5) \cup Vecs(4, 4, 4)
Us == <<"haar", "real", "perm", "block", "sub", "ident">>
FockCalls == {[op |-> "fock", n |-> n, u |-> Us[((W(n) + v) % 6) + 1], cont |-> (W(n) + v) % 3, v |-> v] : n \in Ins, v \in 1..3}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(PermCalls) \o SetToSeq(RepCalls) \o SetToSeq(FockCalls))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
