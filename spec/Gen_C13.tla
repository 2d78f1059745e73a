------------------------------ MODULE Gen_C13 ------------------------------
(***************************************************************************)
(* Fock-space queries: state kind x displacement x hbar x modes x query.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
Hb == <<"2", "1", "0.5", "1.7">>
Kinds == <<"mixed", "pure", "thermal", "product", "partvac", "squeezed", "vacuum", "tmsv">>
Disp == <<"some", "none", "one", "tiny">>
PureK == {"pure", "squeezed", "vacuum", "tmsv", "product"}
H(i) == Hb[(i % 4) + 1]
NV == IF Quick THEN 0..0 ELSE 0..5
States(n) == {[n |-> n, kind |-> Kinds[k], disp |-> Disp[d], hb |-> H(k + d + n + v), v |-> v] :
                 k \in 1..Len(Kinds), d \in 1..Len(Disp), v \in NV}
MaxCut(n) == CASE n = 1 -> 9 [] n = 2 -> 4 [] n = 3 -> 3 [] OTHER -> 2
Base == UNION {States(n) : n \in 1..(IF Quick THEN 3 ELSE 4)}
With(f, S) == {[op |-> S, s |-> s] : s \in f}
Full == {[op |-> "full", s |-> s, cut |-> c] : s \in Base, c \in {1, 2, 9}}
FullOK == {[f EXCEPT !.cut = IF f.cut = 9 THEN MaxCut(f.s.n) ELSE f.cut] : f \in Full}
(* post-selection: every subset of modes, outcome given by the driver's hash *)
Post == {[op |-> "post", s |-> x[1], cut |-> x[2], ps |-> x[3]] :
          x \in UNION {{<<s, c, p>> : c \in {1, 3}, p \in
             {q \in [1..s.n -> {9, 0, 1, 2}] : (\E i \in 1..s.n : q[i] # 9) /\ (s.n < 3 \/ (q[1] + 2 * q[2] + 3 * q[3]) % 7 = 0)}} :
             s \in {b \in Base : b.disp \in {"some", "none"}}}}
Elem == {[op |-> "elem", s |-> s] : s \in Base}
Deep == {[op |-> "deep", s |-> [n |-> n, kind |-> k, disp |-> d, hb |-> H(n + v), v |-> v]] :
            n \in 1..5, k \in {"mixed", "pure", "partvac"}, d \in {"some", "none"}, v \in (IF Quick THEN 0..1 ELSE 0..9)}
Par == {[op |-> "par", s |-> [n |-> 2, kind |-> k, disp |-> "some", hb |-> "1", v |-> 0]] : k \in {"mixed"}}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(FullOK) \o SetToSeq(Post) \o SetToSeq(Elem) \o SetToSeq(Deep) \o SetToSeq(Par))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
