----------------------------- MODULE MC_LaBudde -----------------------------
(***************************************************************************)
(* Design of charpoly/powertrace: the La Budde recursion fills the lower   *)
(* triangle c(i, j), i = leading order, j = coefficient, of the            *)
(* characteristic polynomials of the leading submatrices of an upper       *)
(* Hessenberg matrix; Newton's identities then continue the power traces.  *)
(* Checked on every integer Hessenberg matrix over Entries: each filled    *)
(* entry is a signed sum of principal minors, entries are only read after  *)
(* being filled, the walk fills the whole triangle, and the Newton         *)
(* continuation equals the traces of the powers.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Entries, Extra
VARIABLES H, i, j, c, pt
vars == <<H, i, j, c, pt>>
RECURSIVE DetI(_)
DetI(A) == IF Len(A) = 0 THEN 1 ELSE
  LET n == Len(A)
      minor(k) == [r \in 1..(n - 1) |-> [s \in 1..(n - 1) |-> A[r + 1][IF s < k THEN s ELSE s + 1]]]
      RECURSIVE S(_)
      S(k) == IF k = 0 THEN 0 ELSE (IF k % 2 = 1 THEN A[1][k] ELSE -A[1][k]) * (IF A[1][k] = 0 THEN 0 ELSE DetI(minor(k))) + S(k - 1)
  IN S(n)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o SeqOf(S \ {m})
SubI(A, S) == LET q == SeqOf(S) IN [r \in 1..Len(q) |-> [s \in 1..Len(q) |-> A[q[r]][q[s]]]]
RECURSIVE SumI(_, _)
SumI(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumI(f, S \ {x})
RECURSIVE ProdR(_, _, _)
ProdR(f(_), a, b) == IF a > b THEN 1 ELSE f(a) * ProdR(f, a + 1, b)
Coef(n, k) == LET T == {S \in SUBSET (1..n) : Cardinality(S) = k}
              IN (IF k % 2 = 0 THEN 1 ELSE -1) * SumI([S \in T |-> DetI(SubI(H, S))], T)
Beta(k) == H[k][k - 1]
(* c(i, j) from c(i-1, .), c(i-1, j-1) and c(i-m-1, j-m-1) *)
C(a, b) == IF b = 0 THEN 1 ELSE IF b > a THEN 0 ELSE c[<<a, b>>]   \* defined only once filled
NewC == C(i - 1, j) - H[i][i] * C(i - 1, j - 1)
        - SumI([m \in 1..(j - 1) |-> H[i - m][i] * ProdR(Beta, i - m + 1, i) * C(i - m - 1, j - m - 1)], 1..(j - 1))
Init == /\ H \in {h \in [1..N -> [1..N -> Entries \cup {0}]] : \A r, s \in 1..N : r > s + 1 => h[r][s] = 0}
        /\ i = 1 /\ j = 1 /\ c = <<>> /\ pt = <<>>
Fill == /\ i <= N
        /\ c' = (<<i, j>> :> NewC) @@ c
        /\ IF j = i THEN i' = i + 1 /\ j' = 1 ELSE i' = i /\ j' = j + 1
        /\ UNCHANGED <<H, pt>>
RECURSIVE MPow(_)
MulI(A, B) == [r \in 1..N |-> [s \in 1..N |-> SumI([k \in 1..N |-> A[r][k] * B[k][s]], 1..N)]]
MPow(k) == IF k = 0 THEN [r \in 1..N |-> [s \in 1..N |-> IF r = s THEN 1 ELSE 0]] ELSE MulI(MPow(k - 1), H)
Tr(A) == SumI([r \in 1..N |-> A[r][r]], 1..N)
(* the first N traces are computed directly, the rest from the polynomial *)
Newton == /\ i > N /\ Len(pt) < N + Extra
          /\ pt' = Append(pt, IF Len(pt) < N THEN Tr(MPow(Len(pt)))
                              ELSE SumI([k \in 1..N |-> -(c[<<N, k>>] * pt[Len(pt) + 1 - k])], 1..N))
          /\ UNCHANGED <<H, i, j, c>>
Next == Fill \/ Newton
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Filled == DOMAIN c = {p \in (1..N) \X (1..N) : p[2] <= p[1] /\ (p[1] < i \/ (p[1] = i /\ p[2] < j))}
Minors == \A p \in DOMAIN c : c[p] = Coef(p[1], p[2])
Traces == \A k \in 1..Len(pt) : pt[k] = Tr(MPow(k - 1))
Finishes == <>(Len(pt) = N + Extra)
=============================================================================
