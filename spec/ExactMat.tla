------------------------------ MODULE ExactMat ------------------------------
(***************************************************************************)
(* Vectors and matrices (sequences of rows) of exact numbers.  MMul, Det,  *)
(* Inverse, FastHaf and FastPerm are evaluated by java/walrus/ExactMat.java *)
(* and checked against the definitions here by MC_Exact.tla.               *)
(***************************************************************************)
EXTENDS ExactNum, TLC

Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Mat(n, m, F(_, _)) == TLCEval([i \in 1..n |-> [j \in 1..m |-> F(i, j)]])
Vec(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Ident(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN One ELSE Zero)
ZeroMat(n, m) == Mat(n, m, LAMBDA i, j : Zero)
ZeroVec(n) == Vec(n, LAMBDA i : Zero)
MT(A) == Mat(Cols(A), Rows(A), LAMBDA i, j : A[j][i])
MConj(A) == Mat(Rows(A), Cols(A), LAMBDA i, j : Conj(A[i][j]))
MDag(A) == Mat(Cols(A), Rows(A), LAMBDA i, j : Conj(A[j][i]))
MAdd(A, B) == Mat(Rows(A), Cols(A), LAMBDA i, j : A[i][j] ++ B[i][j])
MSub(A, B) == Mat(Rows(A), Cols(A), LAMBDA i, j : A[i][j] -- B[i][j])
MScale(c, A) == Mat(Rows(A), Cols(A), LAMBDA i, j : c ** A[i][j])
MMulDef(A, B) == Mat(Rows(A), Cols(B), LAMBDA i, j : SumF([k \in 1..Rows(B) |-> A[i][k] ** B[k][j]]))
MMul(A, B) == MMulDef(A, B)
MVec(A, v) == Vec(Rows(A), LAMBDA i : SumF([k \in 1..Len(v) |-> A[i][k] ** v[k]]))
VAdd(u, v) == Vec(Len(u), LAMBDA i : u[i] ++ v[i])
VSub(u, v) == Vec(Len(u), LAMBDA i : u[i] -- v[i])
VScale(c, v) == Vec(Len(v), LAMBDA i : c ** v[i])
VConj(v) == Vec(Len(v), LAMBDA i : Conj(v[i]))
Dot(u, v) == SumF([k \in 1..Len(u) |-> u[k] ** v[k]])
DiagOf(A) == Vec(Rows(A), LAMBDA i : A[i][i])
DiagMat(v) == Mat(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE Zero)
Trace(A) == SumF([i \in 1..Rows(A) |-> A[i][i]])
(* the submatrix at the (1-based) index sequences r, c *)
Sub2(A, r, c) == Mat(Len(r), Len(c), LAMBDA i, j : A[r[i]][c[j]])
SubM(A, r) == Sub2(A, r, r)
SubV(v, r) == Vec(Len(r), LAMBDA i : v[r[i]])
MBlock(A, B, C, D) ==
  LET n == Rows(A) m == Cols(A) IN
  Mat(n + Rows(C), m + Cols(B),
      LAMBDA i, j : IF i <= n THEN (IF j <= m THEN A[i][j] ELSE B[i][j - m])
                    ELSE (IF j <= m THEN C[i - n][j] ELSE D[i - n][j - m]))

RECURSIVE DetDef(_)
DetDef(A) == IF Len(A) = 0 THEN One
             ELSE SumF([j \in 1..Len(A) |->
                     (IF j % 2 = 1 THEN A[1][j] ELSE Neg(A[1][j])) **
                     DetDef(Mat(Len(A) - 1, Len(A) - 1,
                                LAMBDA r, c : A[r + 1][IF c < j THEN c ELSE c + 1]))])
Det(A) == DetDef(A)
(* A^-1; all entries NaN when A is singular *)
Inverse(A) == CHOOSE B : MMul(A, B) = Ident(Rows(A))
MRound(A, k) == A

(* sum over the (loop) perfect matchings of the vertex set S *)
RECURSIVE HafSet(_, _, _)
HafSet(A, S, loops) ==
  IF S = {} THEN One
  ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j
           T == S \ {i}
       IN (IF loops THEN A[i][i] ** HafSet(A, T, loops) ELSE Zero)
          ++ SumF([j \in T |-> A[i][j] ** HafSet(A, T \ {j}, loops)])
FastHaf(A, loops) == HafSet(A, 1..Len(A), loops)
RECURSIVE PermSet(_, _, _)
PermSet(A, i, S) == IF S = {} THEN One
                    ELSE SumF([j \in S |-> A[i][j] ** PermSet(A, i + 1, S \ {j})])
FastPerm(A) == PermSet(A, 1, 1..Len(A))

(* The loop hafnian of the matrix in which index i occurs rpt[i] times and
   whose diagonal holds the repeated vector d (d = 0: the hafnian of the
   repeated matrix): match one copy of the first remaining index. *)
RECURSIVE RepHafDef(_, _, _)
RepHafDef(A, d, rpt) ==
  IF \A i \in DOMAIN rpt : rpt[i] = 0 THEN One
  ELSE LET f == CHOOSE i \in DOMAIN rpt : rpt[i] > 0 /\ \A j \in DOMAIN rpt : rpt[j] > 0 => i <= j
           r == [rpt EXCEPT ![f] = @ - 1]
       IN (d[f] ** RepHafDef(A, d, r))
          ++ SumF([j \in {j \in DOMAIN r : r[j] > 0} |->
                   Num(r[j]) ** A[f][j] ** RepHafDef(A, d, [r EXCEPT ![j] = @ - 1])])
RepHaf(A, d, rpt) == RepHafDef(A, d, rpt)
(* all multi-indices below the cutoffs, row-major; entry k of the table *)
RECURSIVE BoxSize(_)
BoxSize(cut) == IF cut = <<>> THEN 1 ELSE cut[1] * BoxSize(Tail(cut))
RECURSIVE Unravel(_, _)
Unravel(k, cut) == IF cut = <<>> THEN <<>>
                   ELSE LET b == BoxSize(Tail(cut)) IN <<k \div b>> \o Unravel(k % b, Tail(cut))
RECURSIVE Ravel(_, _)
Ravel(idx, cut) == IF cut = <<>> THEN 0 ELSE idx[1] * BoxSize(Tail(cut)) + Ravel(Tail(idx), Tail(cut))
RepHafTable(A, d, cut) == [k \in 1..BoxSize(cut) |-> RepHafDef(A, d, Unravel(k - 1, cut))]

(* largest row sum of moduli, an upper bound of the operator norm *)
NormBound(A) == LET s == [i \in 1..Rows(A) |-> SumF([j \in 1..Cols(A) |-> Abs(A[i][j])])]
                IN MaxAbs(s)
AbsMat(A) == Mat(Rows(A), Cols(A), LAMBDA i, j : Abs(A[i][j]))
MWithin(A, B, tol) == \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : Within(A[i][j], B[i][j], tol)
VWithin(u, v, tol) == \A i \in 1..Len(u) : Within(u[i], v[i], tol)
AllNum(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : IsNum(A[i][j])
IsSquare(A, n) == Len(A) = n /\ \A i \in 1..n : Len(A[i]) = n
=============================================================================
