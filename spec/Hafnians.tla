------------------------------ MODULE Hafnians ------------------------------
(***************************************************************************)
(* Definitions of the matrix functions of thewalrus, each written as the   *)
(* combinatorial sum that defines it (never as one of the implementation's *)
(* algorithms).                                                            *)
(***************************************************************************)
EXTENDS ExactMat

(* hafnian: sum over perfect matchings; loop hafnian: partitions into pairs and singletons *)
Haf(A)  == FastHaf(A, FALSE)
LHaf(A) == FastHaf(A, TRUE)
HafL(A, loop) == FastHaf(A, loop)

RECURSIVE DoubleFact(_)
DoubleFact(n) == IF n <= 1 THEN One ELSE Num(n) ** DoubleFact(n - 2)
RECURSIVE FactQ(_)
FactQ(n) == IF n <= 1 THEN One ELSE Num(n) ** FactQ(n - 1)
RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)
Total(s) == SumSeq(s, Len(s))

(* index sequence of a repetition vector: i occurs rpt[i] times *)
RECURSIVE RepIdxTo(_, _)
RepIdxTo(rpt, k) == IF k = 0 THEN <<>> ELSE RepIdxTo(rpt, k - 1) \o [j \in 1..rpt[k] |-> k]
RepIdx(rpt) == RepIdxTo(rpt, Len(rpt))
RepMat(A, rpt) == SubM(A, RepIdx(rpt))
(* repeated matrix with the repeated vector D on its diagonal *)
RepMatD(A, D, rpt) == LET ix == RepIdx(rpt) IN
  Mat(Len(ix), Len(ix), LAMBDA i, j : IF i = j THEN D[ix[i]] ELSE A[ix[i]][ix[j]])
WithDiag(A, D) == Mat(Len(A), Len(A), LAMBDA i, j : IF i = j THEN D[i] ELSE A[i][j])

(* The same sum over entries' moduli, plus a small multiple of the largest
   value the sum could take: the magnitude rounding errors are measured in. *)
HafScale(A, loop) ==
  LET n == Len(A)
      m == MaxAbs(A)
      h == (n + 1) \div 2
      top == DoubleFact(n) ** Pow(Max2(m, Tiny(3)), h) ** (IF loop THEN Pow(Max2(m, One), h) ELSE One)
  IN FastHaf(AbsMat(A), loop) ++ (top ** Tiny(3))

(* permanent: sum over permutations *)
Perm(A) == FastPerm(A)
PermScale(A) ==
  LET n == Len(A) IN FastPerm(AbsMat(A)) ++ (FactQ(n) ** Pow(MaxAbs(A), n) ** Tiny(3))

(* unit of relative accuracy granted to results computed in a precision *)
EpsOf(dt) == IF dt \in {"f32", "c64"} THEN Frac(3, 10000) ELSE Tiny(8)
=============================================================================
