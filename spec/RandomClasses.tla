--------------------------- MODULE RandomClasses ---------------------------
(***************************************************************************)
(* The classes of matrices advertised by thewalrus.random.                 *)
(***************************************************************************)
EXTENDS Predicates
IsUnitary(U, n, tol) == IsSquare(U, n) /\ AllNum(U) /\ MWithin(MMul(U, MDag(U)), Ident(n), tol)
IsRealMat(U) == \A i \in 1..Len(U) : \A j \in 1..Len(U[i]) : Im(U[i][j]) = Zero
(* layers of interferometers on disjoint neighbouring modes: which entries can be non-zero *)
BlockOf(n, topOne, i) == IF topOne THEN i \div 2 ELSE (i + 1) \div 2    (* modes 1..n *)
LayerSupport(n, topOne) == {<<i, j>> \in (1..n) \X (1..n) : BlockOf(n, topOne, i) = BlockOf(n, topOne, j)}
Compose(n, A, B) == {<<i, j>> \in (1..n) \X (1..n) : \E k \in 1..n : <<i, k>> \in A /\ <<k, j>> \in B}
Diagonal(n) == {<<i, i>> : i \in 1..n}
RECURSIVE LayersSupport(_, _, _)
LayersSupport(n, w, topOne) == IF w = 0 THEN Diagonal(n) ELSE Compose(n, LayerSupport(n, topOne), LayersSupport(n, w - 1, ~topOne))
Dist(i, j) == IF i < j THEN j - i ELSE i - j
Band(n, w) == {<<i, j>> \in (1..n) \X (1..n) : Dist(i, j) <= w}
NonZero(U, tol) == {<<i, j>> \in (1..Len(U)) \X (1..Len(U)) : ~Within(U[i][j], Zero, tol)}
Bandwidth(S) == IF S = {} THEN 0 ELSE CHOOSE d \in {Dist(p[1], p[2]) : p \in S} : \A p \in S : Dist(p[1], p[2]) <= d
BlockDiagonal(V) == LET n == NModes(V) IN \A i \in 1..n : \A j \in 1..n : Within(V[i][j + n], Zero, Tiny(9)) /\ Within(V[i + n][j], Zero, Tiny(9))
=============================================================================
