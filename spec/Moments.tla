------------------------------ MODULE Moments ------------------------------
(***************************************************************************)
(* Moments of the operators of a Gaussian state by Wick's theorem, and the *)
(* joint cumulants obtained from joint moments by the set-partition        *)
(* formula.                                                                *)
(***************************************************************************)
EXTENDS Gaussian

(* covariances of (a^dag_1.., a_1..) in s-ordering, s = 1 normal, 0 symmetric, -1 antinormal *)
WickMat(V, hbar, s) ==
  LET N == NModes(V)
      Nn == NMat(V, hbar)
      Mm == MMat(V, hbar)
      extra == (One -- s) // Two
      Blk(i, j) == Nn[i][j] ++ (IF i = j THEN extra ELSE Zero)
  IN Mat(2 * N, 2 * N, LAMBDA i, j :
       IF i <= N THEN (IF j <= N THEN Conj(Mm[i][j]) ELSE Blk(i, j - N))
       ELSE (IF j <= N THEN Blk(j, i - N) ELSE Mm[i - N][j - N]))
WickVec(mu, hbar) == LET a == AlphaOf(mu, hbar) IN VConj(a) \o a
(* <: prod_i a^dag_i^k[i] prod_i a_i^l[i] :>_s, rpt = k \o l *)
OrderedMoment(mu, V, hbar, s, rpt) == RepHaf(WickMat(V, hbar, s), WickVec(mu, hbar), rpt)

RECURSIVE Stirling(_, _)
Stirling(n, k) == IF n = 0 /\ k = 0 THEN 1 ELSE IF n = 0 \/ k = 0 THEN 0
                  ELSE k * Stirling(n - 1, k) + Stirling(n - 1, k - 1)
(* <prod_i n_i^pw[i]> = Sum_k prod_i S(pw[i], k[i]) <prod a^dag^k a^k> *)
NumberMoment(mu, V, hbar, pw) ==
  LET N == Len(pw)
      W == WickMat(V, hbar, One)
      g == WickVec(mu, hbar)
      top == MaxI(pw)
      Ks == {k \in [1..N -> 0..top] : \A i \in 1..N : k[i] <= pw[i]}
  IN SumF([k \in Ks |-> ProdF([i \in 1..N |-> Num(Stirling(pw[i], k[i]))]) ** RepHaf(W, g, k \o k)])

(* set partitions of a finite set *)
RECURSIVE Partitions(_)
Partitions(S) ==
  IF S = {} THEN {{}}
  ELSE LET x == CHOOSE x \in S : TRUE
       IN UNION {{P \cup {T \cup {x}} : P \in Partitions((S \ {x}) \ T)} : T \in SUBSET (S \ {x})}
RECURSIVE FactI(_)
FactI(n) == IF n <= 1 THEN 1 ELSE n * FactI(n - 1)
(* joint cumulant of variables indexed by S from M(B), the moment of the product over B *)
CumulantTerms(S, M(_)) ==
  LET mom == TLCEval([B \in (SUBSET S) \ {{}} |-> M(B)])
  IN TLCEval([P \in Partitions(S) |->
        Num(FactI(Cardinality(P) - 1)) ** Sgn(Cardinality(P) - 1) ** ProdF([B \in P |-> mom[B]])])
Cumulant(S, M(_)) == SumF(CumulantTerms(S, M))
=============================================================================
