------------------------------ MODULE Gen_C01 ------------------------------
(***************************************************************************)
(* The call space of property C01: every combination of operation, order,  *)
(* method, loop option, entry pattern, with entry type and memory layout   *)
(* spread over them so that each pair of option values occurs.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
Pats == <<"dense", "zerorow", "dup", "graph", "ones", "diag", "block", "zeromat", "offdiag">>
DTs  == <<"real", "complex", "int", "imag", "posint", "f32", "c64">>
Lays == <<"C", "F", "strided", "rev", "ro">>
MaxN == IF Quick THEN 10 ELSE 12
Mix(n, p, m, s) == n + 2 * p + 3 * m + s
Variants == IF Quick THEN 1..2 ELSE 1..7
Base(op, ms, Ns, loops) ==
  {[op |-> op, n |-> n, method |-> ms[m], loop |-> l, pat |-> Pats[p],
    dt |-> DTs[(Mix(n, p, m, 3 * v + (IF l THEN 1 ELSE 0)) % 7) + 1],
    lay |-> Lays[(Mix(n, p, m, v) % 5) + 1], v |-> v]
     : n \in Ns, m \in 1..Len(ms), l \in loops, p \in 1..Len(Pats), v \in Variants}
Calls ==
  Base("hafnian", <<"glynn", "inclexcl", "recursive">>, 0..MaxN, {FALSE})
  \cup Base("hafnian", <<"glynn", "inclexcl">>, 0..MaxN, {TRUE})
  \cup {c \in Base("recursive_hafnian", <<"recursive">>, {0, 2, 4, 6, 8}, {FALSE}) : c.v = 1}
  \cup {c \in Base("loop_hafnian", <<"glynn", "inclexcl">>, 0..(MaxN - 1), {TRUE}) : c.v = 1}
  \cup {c \in Base("reference", <<"reference">>, 0..8, BOOLEAN) : c.v = 1}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT, SetToSeq(Calls))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
