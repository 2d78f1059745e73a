--------------------------- MODULE MC_Montrealer ---------------------------
(* The two definitions of the montrealer agree, and count (2n-2)!! and (n+1)(2n-2)!! terms. *)
EXTENDS Montrealer
CONSTANT MaxN
RECURSIVE DF(_)
DF(k) == IF k <= 1 THEN 1 ELSE k * DF(k - 2)
Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151>>
VARIABLES n, A, done
Lo(i, j) == IF i < j THEN i ELSE j
Hi(i, j) == IF i < j THEN j ELSE i
(* one distinct prime per edge: distinct matchings have distinct weights *)
PrimeMat(k) == Mat(2 * k, 2 * k, LAMBDA i, j : Num(Primes[(Hi(i, j) * (Hi(i, j) - 1)) \div 2 + Lo(i, j)]))
Init == n \in 1..MaxN /\ A = PrimeMat(n) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<n, A>>
Agree == \A loop \in BOOLEAN : Eq(ByFilter(A, loop), ByWalk(A, loop))
Count == Cardinality(Cycles(n)) = DF(2 * n - 2) /\ Cardinality(Cycles(n) \cup Paths(n)) = (n + 1) * DF(2 * n - 2)
=============================================================================
