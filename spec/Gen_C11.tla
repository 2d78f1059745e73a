------------------------------ MODULE Gen_C11 ------------------------------
(***************************************************************************)
(* Gate histories: every single step and every ordered pair of steps on    *)
(* three modes, and pseudo-random longer histories on up to five modes.    *)
(* Parameters are chosen by the driver from the history's hash.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
Hb == <<"2", "1", "0.5", "1.7">>
One1 == <<"sq", "sq0", "rot", "disp", "dispi", "loss", "lossth", "psq">>
Two2 == <<"tms", "bs", "U2", "sqmany", "sqvec", "pass2">>
Lists(N, k) == {s \in [1..k -> 0..(N - 1)] : \A a, b \in 1..k : a # b => s[a] # s[b]}
Steps(N) == {[g |-> One1[g], w |-> <<i>>] : g \in 1..Len(One1), i \in 0..(N - 1)}
       \cup {[g |-> Two2[g], w |-> p] : g \in 1..Len(Two2), p \in Lists(N, 2)}
       \cup {[g |-> "U3", w |-> p] : p \in Lists(N, 3)}
S3 == SetToSeq(Steps(3))
N3 == Len(S3)
Singles == {[N |-> 3, hb |-> Hb[(i % 4) + 1], steps |-> <<[g |-> "rnd", w |-> <<>>], S3[i]>>, v |-> 0] : i \in 1..N3}
Pairs == {[N |-> 3, hb |-> Hb[((i + j) % 4) + 1], steps |-> <<S3[i], S3[j]>>, v |-> 0] : i \in 1..N3, j \in 1..N3}
PairsQ == {p \in Pairs : TRUE}
(* linear congruential choices *)
R(k, i) == ((k * 7919 + i * 104729 + k * k * 31 + i * i * k * 17) % 1000003)
LongN == IF Quick THEN 120 ELSE 600
Long == {LET N == 1 + (k % 5)
             A == SetToSeq({s \in Steps(N) : Len(s.w) <= N})
         IN [N |-> N, hb |-> Hb[(k % 4) + 1], steps |-> [i \in 1..(6 + (k % 9)) |-> A[(R(k, i) % Len(A)) + 1]], v |-> k] : k \in 1..LongN}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Singles) \o SetToSeq(PairsQ) \o SetToSeq(Long))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
