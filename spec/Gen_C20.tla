------------------------------ MODULE Gen_C20 ------------------------------
(***************************************************************************)
(* Behaviours of the sample drivers: sequences of drawn patterns with      *)
(* exactly N acceptable ones, the last one acceptable, and up to R         *)
(* rejected ones in between (the machine of SampleLoop.tla); limits;       *)
(* serial/parallel; seeds.                                                 *)
(***************************************************************************)
EXTENDS SampleLoop, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
(* outcome streams of one mode *)
ModeH(cut) == {<<o>> : o \in 0..cut}
ModeT(f, cut) == {[i \in 1..f |-> 0]} \cup {[i \in 1..k |-> IF i = k THEN o ELSE 0] : k \in 1..f, o \in 1..cut}
RECURSIVE Pats(_, _)
Pats(n, M) == IF n = 0 THEN {<<>>} ELSE {p \o m : p \in Pats(n - 1, M), m \in M}
Ok(p, n, f, cut, maxp) == Len(Run(Fresh, p, n, f, cut, maxp, FALSE).acc) = 1
RECURSIVE Streams(_, _, _, _)
(* N acceptable ones still to come, r rejections left *)
Streams(A, B, N, r) == IF N = 0 THEN {<<>>}
  ELSE {a \o t : a \in A, t \in Streams(A, B, N - 1, r)} \cup (IF r = 0 THEN {} ELSE {b \o t : b \in B, t \in Streams(A, B, N, r - 1)})
Beh(n, f, cut, maxp, N, r) ==
  LET P == Pats(n, IF f = 0 THEN ModeH(cut) ELSE ModeT(f, cut))
      A == {p \in P : Ok(p, n, f, cut, maxp)}
  IN {[op |-> "script", n |-> n, f |-> f, cut |-> cut, maxp |-> maxp, N |-> N, stream |-> s] : s \in Streams(A, P \ A, N, r)}
Scripts == Beh(1, 0, 2, 1, 2, 2) \cup Beh(2, 0, 2, 2, 1, 1) \cup Beh(2, 0, 2, 1, 2, 1) \cup Beh(3, 0, 1, 3, 2, 1) \cup Beh(2, 0, 3, 3, 1, 1)
        \cup Beh(1, 2, 1, 0, 2, 2) \cup Beh(2, 2, 1, 1, 1, 1) \cup Beh(3, 1, 1, 2, 1, 1) \cup Beh(2, 1, 2, 1, 1, 1)
        \cup (IF Quick THEN {} ELSE Beh(1, 0, 3, 2, 3, 3) \cup Beh(2, 0, 2, 2, 2, 1) \cup Beh(3, 0, 2, 3, 1, 1) \cup Beh(3, 1, 1, 2, 2, 1) \cup Beh(2, 2, 1, 1, 2, 1) \cup Beh(2, 3, 1, 1, 1, 1))
Limits == {[op |-> "limits", n |-> n, N |-> N, cut |-> c, maxp |-> m, par |-> p, v |-> v] :
             n \in 1..4, N \in {1, 2, 5, 12}, c \in {2, 4}, m \in {2, 30}, p \in BOOLEAN, v \in (IF Quick THEN {0} ELSE 0..5)}
Threads == {[op |-> "threads", n |-> n, f |-> f, N |-> N, cut |-> c, maxp |-> m, v |-> v] :
             n \in {1, 3}, f \in {0, 2}, N \in {1, 4, 16}, c \in {1, 2}, m \in {1, 2}, v \in (IF Quick THEN {0} ELSE 0..5)}
Classical == {[op |-> "classical", n |-> n, N |-> N, h |-> h, thr |-> t, v |-> v] : n \in 1..4, N \in {1, 3, 20}, h \in {"2", "1", "0.7"}, t \in BOOLEAN, v \in (IF Quick THEN 0..1 ELSE 0..9)}
RankOne == {[op |-> "rankone", n |-> n, N |-> N, v |-> v] : n \in 1..5, N \in {1, 4, 20}, v \in 0..3}
Graphs == {[op |-> "graph", n |-> n, N |-> N, cut |-> c, maxp |-> m, par |-> p, thr |-> t, v |-> v] : n \in {2, 4, 5}, N \in {1, 6}, c \in {3, 6}, m \in {2, 30}, p \in BOOLEAN, t \in BOOLEAN, v \in (IF Quick THEN {0} ELSE 0..5)}
Single == {[op |-> "single", n |-> n, cut |-> c, maxp |-> m, thr |-> t, v |-> v] : n \in 1..3, c \in {1, 2, 4}, m \in {0, 1, 3}, t \in BOOLEAN, v \in 0..7}
Seeds == {[op |-> "seed", s |-> s, v |-> v] : s \in {0, 1, 137, 2147483647}, v \in 0..2}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Scripts) \o SetToSeq(Limits) \o SetToSeq(Threads) \o SetToSeq(Classical) \o SetToSeq(RankOne) \o SetToSeq(Graphs) \o SetToSeq(Single) \o SetToSeq(Seeds))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
