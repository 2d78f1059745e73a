----------------------------- MODULE Matchings -----------------------------
(***************************************************************************)
(* The sets enumerated by thewalrus.reference.                             *)
(* A matching of S is a set of blocks, each a set of one or two elements.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE BlocksOf(_, _, _)
BlocksOf(S, singles, pairs) ==
  IF S = {} THEN {{}}
  ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y
           R == S \ {x}
       IN (IF singles THEN {{{x}} \cup m : m \in BlocksOf(R, singles, pairs)} ELSE {})
          \cup (IF pairs THEN UNION {{{{x, y}} \cup m : m \in BlocksOf(R \ {y}, singles, pairs)} : y \in R} ELSE {})
RECURSIVE Telephone(_)
Telephone(n) == IF n <= 1 THEN 1 ELSE Telephone(n - 1) + (n - 1) * Telephone(n - 2)
RECURSIVE DoubleFact(_)
DoubleFact(n) == IF n <= 1 THEN 1 ELSE n * DoubleFact(n - 2)
(* how the library writes a block: (i,), (i, j), or (i, i) for a single in spm *)
BlockSet(b) == {b[i] : i \in 1..Len(b)}
Canon(m) == {BlockSet(m[i]) : i \in 1..Len(m)}
RECURSIVE CountOf(_, _)
CountOf(x, s) == IF s = <<>> THEN 0 ELSE (IF Head(s) = x THEN 1 ELSE 0) + CountOf(x, Tail(s))
IsPrefix2(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
=============================================================================
