------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* The documented domains of the entry points that validate their          *)
(* arguments.  A contract is a sequence of clauses <<name, verdict, kinds>>*)
(* with verdict "yes" | "no" | "?" (inside the rounding band of a          *)
(* tolerance) evaluated on the very arguments of a call, and kinds the     *)
(* exceptions with which a violation is reported.                          *)
(*                                                                         *)
(* A call whose clauses all hold has to return; one that violates a clause *)
(* has to raise one of the exceptions of the clauses it violates, whatever *)
(* the other arguments are.                                                *)
(*                                                                         *)
(* Matrices are records [arr |-> is an ndarray, sh |-> shape,              *)
(* nan |-> contains a NaN, v |-> entries (2-d arrays without NaN)].        *)
(***************************************************************************)
EXTENDS Predicates

VE == {"ValueError", "LinAlgError"}
TE == {"TypeError"}
AE == {"AssertionError", "ValueError", "LinAlgError"}
B2(b) == IF b THEN "yes" ELSE "no"
Cl(name, b, kinds) == <<name, B2(b), kinds>>
Cl3(name, v, kinds) == <<name, v, kinds>>

Square(A) == Len(A.sh) = 2 /\ A.sh[1] = A.sh[2]
Dim(A) == A.sh[1]
(* |A - A^T| <= atol + rtol |A^T| entry by entry; the band is rounding *)
AllClose3(D(_, _), W(_, _), n, m, rt, at) ==
  LET lo == One -- Tiny(6) hi == One ++ Tiny(6) IN
  IF \A i \in 1..n : \A j \in 1..m : Leq(Abs(D(i, j)), lo ** (at ++ (rt ** Abs(W(i, j))))) THEN "yes"
  ELSE IF \E i \in 1..n : \E j \in 1..m : Lt(hi ** (at ++ (rt ** Abs(W(i, j)))), Abs(D(i, j))) THEN "no" ELSE "?"
Symmetric(A, rt, at) ==
  LET M == Nums(A.v) n == Dim(A) IN AllClose3(LAMBDA i, j : M[i][j] -- M[j][i], LAMBDA i, j : M[j][i], n, n, rt, at)
Symplectic(A, rt, at) ==
  IF ~Square(A) \/ Dim(A) % 2 # 0 THEN "no"
  ELSE LET M == Nums(A.v) n == Dim(A) O == Omega(n \div 2) K == MMul(MMul(MT(M), O), M)
           d == MaxAbs([i \in 1..n |-> [j \in 1..n |-> K[i][j] -- O[i][j]]])
       IN IF Leq(d, Half ** at) THEN "yes" ELSE IF Lt(Num(20) ** (at ++ (rt ** (One ++ (MaxAbs(M) ** MaxAbs(M))))), d) THEN "no" ELSE "?"

(* matrix arguments *)
ArrC(A) == <<Cl("not an array", A.arr, TE)>>
SqC(A) == ArrC(A) \o (IF A.arr THEN <<Cl("not square", Square(A), VE)>> ELSE <<>>)
SqNanC(A) == SqC(A) \o (IF A.arr THEN <<Cl("contains NaN", ~A.nan, VE)>> ELSE <<>>)
SymC(A, rt, at) == SqNanC(A) \o (IF A.arr /\ Square(A) /\ ~A.nan THEN <<Cl3("not symmetric", Symmetric(A, rt, at), VE)>> ELSE <<>>)
EvenC(A) == SqC(A) \o (IF A.arr /\ Square(A) THEN <<Cl("odd dimension", Dim(A) % 2 = 0, VE)>> ELSE <<>>)
LenC(name, k, want) == <<Cl(name, k = want, VE)>>
RptC(rpt, A) == (IF A.arr THEN LenC("repetitions of wrong length", Len(rpt), Dim(A)) ELSE <<>>)
   \o <<Cl("repetitions not non-negative integers", \A i \in 1..Len(rpt) : LET r == Num(rpt[i]) IN IsInteger(r) /\ Leq(Zero, r), VE)>>
MeanC(k, A) == IF k < 0 \/ ~A.arr THEN <<>> ELSE LenC("vector of wrong length", k, Dim(A))      (* k = -1: not given *)
SumI(s) == SumF([i \in 1..Len(s) |-> Num(s[i])])
Mtx(A) == Nums(A.v)
(* the approximation is for non-negative matrices; up to size 4, for odd sizes and
   (nearly) diagonal matrices there is nothing to approximate *)
Exactly(A) == Dim(A) \in 0..4 \/ Dim(A) % 2 = 1 \/ \A i \in 1..Dim(A) : \A j \in 1..Dim(A) : i = j \/ Lt(Abs(Mtx(A)[i][j]), Frac(1, 10))
PosReal(A) == LET sure(b) == IF b THEN "yes" ELSE IF Exactly(A) THEN "?" ELSE "no" IN
              <<Cl3("complex entries", IF A.nan THEN "yes" ELSE sure(\A i \in 1..A.sh[1] : \A j \in 1..A.sh[2] : Im(Mtx(A)[i][j]) = Zero), VE),
                Cl3("negative entries", IF A.nan THEN "yes" ELSE sure(\A i \in 1..A.sh[1] : \A j \in 1..A.sh[2] : Leq(Zero, Re(Mtx(A)[i][j]))), VE)>>
PosDefC(A) == <<Cl3("not positive definite",
      LET M == Mtx(A) IN IF PosDef(AddDiag(M, Neg(Tiny(6)))) THEN "yes" ELSE IF ~PosDef(AddDiag(M, Tiny(6))) THEN "no" ELSE "?", VE)>>
ModesC(modes, N) == <<Cl("modes out of range", \A i \in 1..Len(modes) : modes[i] >= 0 /\ modes[i] < N, VE)>>
PartC(e) ==       (* the bipartition: modes_A wins over split *)
  IF e.in.mk = "bad" THEN <<Cl("modes_A of a wrong type", FALSE, TE)>>
  ELSE IF e.in.mk = "some" THEN <<Cl("modes_A out of range", \A i \in 1..Len(e.in.modes) : LET r == Num(e.in.modes[i]) IN IsInteger(r) /\ Leq(Zero, r) /\ Lt(r, Num(e.in.M)), VE)>>
  ELSE IF e.in.sk = "none" THEN <<Cl("no bipartition", FALSE, TE)>>
  ELSE <<Cl("split out of range", LET r == Num(e.in.split) IN IsInteger(r) /\ Leq(Zero, r) /\ Lt(r, Num(e.in.M)), VE)>>
Rt(e) == Num(e.in.rtol)
At(e) == Num(e.in.atol)
Hb(e) == Num(e.in.hbar)
CovSq(A) == Square(A) /\ Dim(A) % 2 = 0
Valid3(A, h, rt, at) == IF ~CovSq(A) THEN "no" ELSE ValidV(Mtx(A), h, rt, at)
Pure3(A, h, rt, at) == IF ~CovSq(A) THEN "no" ELSE PureV(Mtx(A), h, rt, at)
Class3(A, h, at) == IF ~CovSq(A) THEN "no" ELSE ClassV(Mtx(A), h, at)
D5 == Tiny(5)
D8 == Tiny(8)

Contract(e) ==
  LET A == e.in.A IN
  CASE e.op = "hafnian" -> SymC(A, Rt(e), At(e)) \o (IF e.in.approx /\ A.arr /\ Square(A) THEN PosReal(A) ELSE <<>>)
    [] e.op = "hafnian_repeated" -> SymC(A, Rt(e), At(e)) \o RptC(e.in.rpt, A) \o MeanC(e.in.mu, A)
    [] e.op = "hafnian_banded" -> SymC(A, Rt(e), At(e))
    [] e.op \in {"hafnian_batched", "hermite"} -> SymC(A, Rt(e), At(e)) \o MeanC(e.in.mu, A)
    [] e.op = "interferometer" -> SymC(A, Rt(e), At(e))
    [] e.op = "recursive_hafnian" -> EvenC(A)
    [] e.op = "perm" -> SqNanC(A)
    [] e.op = "permanent_repeated" -> <<Cl("not square", Square(A), VE)>> \o RptC(e.in.rpt, A) \o <<Cl("contains NaN", ~A.nan, VE)>>
    [] e.op = "reference_hafnian" -> <<Cl("not square", Square(A), VE)>>
    [] e.op \in {"tor", "mtl"} -> EvenC(A)
    [] e.op \in {"ltor", "lmtl"} -> EvenC(A) \o <<Cl("loops not an array", e.in.garr, TE)>> \o MeanC(e.in.mu, A)
    [] e.op = "fock_prob" -> <<Cl("photon numbers differ", SumI(e.in.n) = SumI(e.in.m), VE)>>
    [] e.op = "fock_threshold_prob" -> LenC("input of wrong length", Len(e.in.n), A.sh[2]) \o LenC("output of wrong length", Len(e.in.d), A.sh[1])
                                       \o <<Cl("more outputs than inputs", A.sh[1] <= A.sh[2], VE)>>
    [] e.op = "loop_hafnian" -> <<Cl("repetitions of wrong length", Len(e.in.rpt) = Dim(A), AE)>> \o (IF e.in.mu < 0 THEN <<>> ELSE <<Cl("vector of wrong length", e.in.mu = Dim(A), AE)>>)
    [] e.op = "grad_hermite" -> LenC("vector of wrong length", e.in.mu, Dim(A))
    [] e.op = "batch" -> <<Cl("not square", Square(A), AE), Cl("loops of wrong length", e.in.mu = Dim(A), AE), Cl("repetitions of wrong length", Len(e.in.rpt) = Dim(A) - 1, AE)>>
    [] e.op = "williamson" -> <<Cl("not square", Square(A), VE)>>
          \o (IF Square(A) THEN <<Cl3("not symmetric", Symmetric(A, Rt(e), At(e)), VE), Cl("odd dimension", Dim(A) % 2 = 0, VE)>>
                 \o (IF Symmetric(A, Rt(e), At(e)) = "yes" THEN PosDefC(A) ELSE <<>>) ELSE <<>>)
    [] e.op \in {"blochmessiah", "pre_iwasawa", "iwasawa"} -> <<Cl3("not symplectic", Symplectic(A, D5, D8), VE)>>
    [] e.op = "takagi" -> <<Cl("not square", Square(A), VE)>>
    [] e.op = "random_banded" -> <<Cl("bandwidth too large", e.in.N >= e.in.w + 1, VE)>>
    [] e.op = "sample_state" -> SqNanC(A)
    [] e.op = "sample_classical" -> <<Cl3("not classical", Class3(A, Hb(e), At(e)), VE)>>
          \o (IF e.in.msh = <<-1>> THEN <<>> ELSE <<Cl("mean of wrong shape", e.in.msh = <<Dim(A)>>, VE)>>)
    [] e.op = "expand_passive" -> <<Cl("not square", Square(A), VE), Cl("modes of wrong length", Len(e.in.modes) = Dim(A), VE)>>
    [] e.op \in {"reduced_state", "reduced_gaussian"} -> ModesC(e.in.modes, e.in.M)
    [] e.op = "reorder" -> <<Cl("odd dimension", A.sh[1] % 2 = 0, VE)>> \o (IF Len(A.sh) = 2 THEN <<Cl("not square", Square(A), VE)>> ELSE <<>>)
    [] e.op = "adj_scaling_torontonian" -> <<Cl("clicks out of range", Leq(Zero, Num(e.in.c)) /\ Leq(Num(e.in.c), Num(Dim(A))), VE)>>
    [] e.op = "adj_scaling" -> <<Cl("no non-zero singular value", \E i \in 1..Dim(A) : \E j \in 1..Dim(A) : Mtx(A)[i][j] # Zero, VE)>>
    [] e.op = "adj_to_qmat" -> <<Cl("not square", Square(A), VE)>>
    [] e.op = "rescale" -> (IF e.in.sym THEN <<Cl3("not symmetric", Symmetric(A, Rt(e), At(e)), AE)>> ELSE <<>>) \o (IF Symmetric(A, Rt(e), At(e)) = "yes" /\ e.in.pos THEN
                             <<Cl3("not positive", LET M == Mtx(A) IN IF PosDef(AddDiag(M, At(e) ** Half)) THEN "yes" ELSE IF ~PosDef(AddDiag(M, At(e) ** Two)) THEN "no" ELSE "?", AE)>> ELSE IF e.in.pos THEN <<Cl3("not positive", "?", AE)>> ELSE <<>>)
    [] e.op = "vonneumann" -> <<Cl3("not a covariance matrix", Valid3(A, Hb(e), D5, D8), VE)>>
    [] e.op = "entropy" -> <<Cl3("not pure", Pure3(A, Hb(e), D5, D8), VE)>> \o PartC(e)
    [] e.op = "negativity" -> <<Cl3("not a covariance matrix", Valid3(A, Hb(e), D5, D8), VE)>> \o PartC(e)
    [] e.op \in {"state_vector", "amplitude"} -> IF e.in.check THEN <<Cl3("not pure", Pure3(A, Hb(e), D5, D8), VE)>> ELSE <<>>
    [] e.op = "pure_distribution" -> <<Cl3("not pure", Pure3(A, Hb(e), D5, D8), VE)>>
    [] e.op = "fock_tensor" -> (IF e.in.check THEN <<Cl3("not symplectic", Symplectic(A, Rt(e), At(e)), VE)>> ELSE <<>>)
          \o <<Cl("displacements of wrong length", 2 * e.in.mu = Dim(A) \/ 2 * e.in.mu + 1 = Dim(A), VE)>>
    [] e.op = "loss_mat" -> <<Cl("transmission out of range", Leq(Zero, Num(e.in.eta)) /\ Leq(Num(e.in.eta), One), VE)>>
    [] e.op = "update_loss" -> <<Cl("wrong number of transmissions", Len(e.in.etas) = e.in.M, VE),
                                 Cl("transmission out of range", \A i \in 1..Len(e.in.etas) : Leq(Zero, Num(e.in.etas[i])) /\ Leq(Num(e.in.etas[i]), One), VE)>>
    [] e.op = "update_noise" -> <<Cl("wrong number of noise distributions", e.in.k = e.in.M, VE)>>
    [] e.op = "tvd" -> IF e.in.check THEN <<Cl3("not a covariance matrix", Valid3(A, Hb(e), Rt(e), At(e)), VE)>> ELSE <<>>
    [] e.op = "marginals" -> <<Cl("shapes differ", A.sh = <<e.in.mu, e.in.mu>>, VE), Cl("odd dimension", e.in.mu % 2 = 0, VE),
                               Cl("order too high", 2 * e.in.n <= e.in.mu, VE)>>
    [] e.op = "fidelity" -> <<Cl("shapes differ", \A s \in {e.in.sh[i] : i \in 1..Len(e.in.sh)} : s = e.in.sh[1], VE)>>
=============================================================================
