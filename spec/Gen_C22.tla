------------------------------ MODULE Gen_C22 ------------------------------
(* Histories, interleavings of consumers, layouts and thread counts. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
(* call i, then the calls at these distances from i, then i again *)
Offs == IF Quick THEN {<<0>>, <<1>>, <<2>>, <<0, 0>>, <<3, 1>>} ELSE {<<a>> : a \in 0..15} \cup {<<a, b>> : a, b \in {0, 1, 2, 5}} \cup {<<7, 2, 4>>, <<1, 0, 1>>}
Hist == {[op |-> "hist", i |-> i, off |-> o] : i \in 0..19, o \in Offs}
Layouts == {[op |-> "layout", lay |-> l] : l \in {"C", "F", "strided", "rev", "ro"}}
Threads == {[op |-> "threads", n |-> n, rot |-> r] : n \in (IF Quick THEN {2, 5} ELSE {2, 3, 5, 8, 13}), r \in (IF Quick THEN {1} ELSE {0, 1, 3})}
Workers == {[op |-> "workers", n |-> n] : n \in {1, 2, 3, 5, 8}}
Strides == {[op |-> "cross", stride |-> s] : s \in (IF Quick THEN {1, 2, 3} ELSE 1..12)}
(* scripts: which consumer takes how many items (99: all that are left) *)
Steps == {<<c, k>> : c \in 1..2, k \in {1, 4, 99}}
Scripts == [1..3 -> Steps] \cup {<<<<1, 2>>, <<2, 1>>, <<3, 5>>, <<1, 3>>, <<2, 99>>, <<3, 99>>, <<1, 99>>>>, <<<<1, 1>>, <<2, 1>>, <<1, 1>>, <<2, 2>>, <<1, 99>>, <<2, 99>>, <<3, 99>>>>}
Gens == {<<"spm", 3>>, <<"spm", 5>>, <<"pmp", 4>>, <<"pmp", 6>>, <<"rpmp", 4>>, <<"rpmp", 6>>, <<"rspm", 4>>, <<"rspm", 6>>, <<"part", 4>>, <<"singles", 4>>, <<"pairs", 6>>, <<"nothing", 5>>}
Takes == {[op |-> "cons", fn |-> g[1], n |-> g[2], script |-> s] : g \in (IF Quick THEN Gens ELSE Gens \cup {<<"spm", 4>>, <<"spm", 7>>, <<"pmp", 8>>, <<"part", 6>>}), s \in Scripts}
Labels == {[op |-> "labels", fn |-> f, lab |-> l] : f \in {"spm", "pmp", "rpmp", "rspm"}, l \in {<<3, 1, 4, 2>>, <<10, 20, 30, 40>>, <<-1, 0, 5, 7, 2, 1>>, <<7, 8, 9, 1, 2, 3>>}}
Many == {[op |-> "many", fn |-> f, n |-> n, t |-> t] : f \in {"spm", "pmp", "part"}, n \in {4, 6}, t \in {2, 4, 8}}
Acc == UNION {[1..l -> 1..4] : l \in 4..(IF Quick THEN 5 ELSE 7)}
Some == {a \in Acc : LET RECURSIVE h(_) h(i) == IF i = 0 THEN 0 ELSE (h(i - 1) * 5 + a[i]) % 11 IN ~Quick \/ h(Len(a)) = 3}
Memo == {[op |-> "memo", limit |-> l, acc |-> a, gen |-> g] : l \in 1..3, a \in Some, g \in {0, 1}}
Fault == {[op |-> "fault", at |-> k, n |-> 4, first |-> f, kind |-> kd] : k \in 0..4, f \in {1, 2, 99}, kd \in {"ValueError", "KeyboardInterrupt"}}
Tel == {[op |-> "T", n |-> n] : n \in 0..40}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Hist) \o SetToSeq(Layouts) \o SetToSeq(Threads) \o SetToSeq(Workers) \o SetToSeq(Strides) \o SetToSeq(Takes) \o SetToSeq(Labels) \o SetToSeq(Many) \o SetToSeq(Memo) \o SetToSeq(Fault) \o SetToSeq(Tel))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
