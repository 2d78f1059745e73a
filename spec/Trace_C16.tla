----------------------------- MODULE Trace_C16 -----------------------------
(***************************************************************************)
(* C16: matrix decompositions: the product of the returned factors is the  *)
(* input, and each factor belongs to the promised class.                   *)
(***************************************************************************)
EXTENDS TraceBase, Gaussian
Fac(e, i) == Nums(e.out.v[i].v)
Ok(e, shapes) == Then(Returned(e), Req(Len(e.out.v) = Len(shapes) /\ \A i \in 1..Len(shapes) : e.out.v[i].shape = shapes[i], "wrong shapes of the factors"))
Sz(A) == One ++ MaxAbs(A)
NearI(A, tol, name) == MNear(A, Ident(Len(A)), tol, name)
SympC(S, tol, name) == LET O == Omega(NModes(S)) IN MNear(MMul(MMul(S, O), MT(S)), O, tol, name \o " is not symplectic")
OrthC(S, tol, name) == NearI(MMul(S, MT(S)), tol, name \o " is not orthogonal")
DiagC(D, name) == Req(\A i, j \in 1..Len(D) : i = j \/ Eq(D[i][j], Zero), name \o " is not diagonal")
Blk(A, r, c, n) == Mat(n, n, LAMBDA i, j : A[i + r * n][j + c * n])
SymC(A, tol, name) == MNear(A, MT(A), tol, name \o " is not symmetric")
RECURSIVE MPow(_, _)
MPow(A, k) == IF k = 1 THEN A ELSE MMul(MPow(A, k - 1), A)
Judge(e) ==
  CASE e.op = "williamson" ->
        LET V == Nums(e.in.V) m == Len(V) n == m \div 2 IN
        Then(Ok(e, <<<<m, m>>, <<m, m>>>>),
          LET D == Fac(e, 1) S == Fac(e, 2) tol == Num(e.in.tol) ** (Sz(V) ** Sz(S)) IN
          MNear(MMul(MMul(S, D), MT(S)), V, tol, "S D S^T") \cup SympC(S, tol, "S")
          \cup DiagC(D, "D") \cup Req(\A i \in 1..n : Lt(Zero, D[i][i]) /\ Within(D[i][i], D[i + n][i + n], tol), "D is not of the form diag(d, d), d > 0"))
    [] e.op = "eigenvals" ->
        LET V == Nums(e.in.V) n == Len(V) \div 2 M == MMul(Omega(n), V) IN
        Then(Array(e, <<n>>),
          LET nu == Nums(e.out.v)
              sc == Sz(M)
              got(j) == SumF([k \in 1..n |-> Pow(nu[k], 2 * j)])
              want(j) == (Half ** Sgn(j)) ** Trace(MPow(M, 2 * j))
          IN Req(\A k \in 1..n : Lt(Zero, nu[k]) /\ Leq(Abs(Im(nu[k])), Tiny(9) ** sc), "symplectic eigenvalues are not positive")
             \cup UNION {Near(got(j), want(j), Num(e.in.tol) ** (One ++ Pow(MaxAbs(nu), 2 * j)) ** sc, "sum of the " \o ToString(2 * j) \o "-th powers of the symplectic eigenvalues") : j \in 1..n})
    [] e.op = "takagi" ->
        LET A0 == Nums(e.in.A) n == Len(A0) A == Mat(n, n, LAMBDA i, j : IF i <= j THEN A0[i][j] ELSE A0[j][i])
            tol == Num(e.in.tol) ** Sz(A) IN
        Then(Ok(e, <<<<n>>, <<n, n>>>>),
          LET l == Fac(e, 1) U == Fac(e, 2) IN
          MNear(MMul(MMul(U, DiagMat(l)), MT(U)), A, tol, "U diag(l) U^T")
          \cup NearI(MMul(U, MDag(U)), tol, "U is not unitary: U U^dag")
          \cup Req(\A i \in 1..n : Leq(Neg(tol), l[i]) /\ IsRealNum(l[i]), "singular values are not non-negative")
          \cup Req(\A i \in 1..(n - 1) : IF e.in.desc THEN Leq(l[i + 1], l[i] ++ tol) ELSE Leq(l[i], l[i + 1] ++ tol), "singular values are not ordered as requested"))
    [] e.op = "blochmessiah" ->
        LET S == Nums(e.in.S) m == Len(S) n == m \div 2 tol == Num(e.in.tol) ** (Sz(S) ** Sz(S)) IN
        Then(Ok(e, <<<<m, m>>, <<m, m>>, <<m, m>>>>),
          LET O == Fac(e, 1) D == Fac(e, 2) Q == Fac(e, 3) IN
          MNear(MMul(MMul(O, D), Q), S, tol, "O D Q") \cup OrthC(O, tol, "O") \cup OrthC(Q, tol, "Q") \cup SympC(O, tol, "O") \cup SympC(Q, tol, "Q")
          \cup DiagC(D, "D") \cup Req(\A i \in 1..n : Lt(Zero, D[i][i]) /\ Within(D[i][i] ** D[i + n][i + n], One, tol), "D is not diag(d, 1/d), d > 0"))
    [] e.op \in {"pre_iwasawa", "iwasawa"} ->
        LET S == Nums(e.in.S) m == Len(S) n == m \div 2 tol == Num(e.in.tol) ** (Sz(S) ** Sz(S)) IN
        Then(Ok(e, <<<<m, m>>, <<m, m>>, <<m, m>>>>),
          LET E == Fac(e, 1) D == Fac(e, 2) F == Fac(e, 3) t2 == tol ** Sz(E) ** Sz(D) A == Blk(E, 0, 0, n) C == Blk(E, 1, 0, n) IN
          MNear(MMul(MMul(E, D), F), S, t2, "E D F") \cup OrthC(F, t2, "F") \cup SympC(F, t2, "F") \cup SympC(E, t2 ** Sz(E), "E") \cup SympC(D, t2, "D")
          \cup MNear(Blk(E, 0, 1, n), ZeroMat(n, n), t2, "upper right block of E")
          \cup MNear(Blk(D, 0, 1, n), ZeroMat(n, n), t2, "upper right block of D") \cup MNear(Blk(D, 1, 0, n), ZeroMat(n, n), t2, "lower left block of D")
          \cup NearI(MMul(Blk(D, 0, 0, n), Blk(D, 1, 1, n)), t2, "D blocks are not inverse of each other")
          \cup (IF e.op = "pre_iwasawa" THEN NearI(A, t2, "upper left block of E") \cup NearI(Blk(E, 1, 1, n), t2, "lower right block of E") \cup SymC(C, t2, "X")
                ELSE DiagC(D, "D") \cup Req(\A i \in 1..m : Lt(Zero, D[i][i]), "D is not positive")
                     \cup Req(\A i \in 1..n : Within(A[i][i], One, t2) /\ \A j \in (i + 1)..n : Within(A[i][j], Zero, t2), "the upper left block of E is not unit triangular")
                     \cup SymC(MMul(MT(A), C), t2 ** Sz(E), "A^T C")))
    [] e.op = "reject" -> Raised(e, {"ValueError"})
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
