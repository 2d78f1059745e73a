---------------------------- MODULE MC_GrayPerm ----------------------------
(***************************************************************************)
(* Design of the two permanent algorithms: a walk over row subsets (Ryser) *)
(* or row signs (BBFG) in Gray order, one row update per step.  Checked:   *)
(* every update is of exactly one row; the running combination is the      *)
(* combination of the current subset; every subset is visited once; the    *)
(* total is the permutation sum when the walk ends, which it does.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Entries
VARIABLES M, alg, k, gray, comb, total, sign, seen
vars == <<M, alg, k, gray, comb, total, sign, seen>>

Bit(x, i) == (x \div 2^i) % 2
GrayOf(x) == LET b == [i \in 0..N |-> (Bit(x, i) + Bit(x, i + 1)) % 2]
                 RECURSIVE V(_)
                 V(i) == IF i > N THEN 0 ELSE b[i] * 2^i + V(i + 1)
             IN V(0)
RECURSIVE SumUp(_, _), ProdUp(_, _)
SumUp(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumUp(f, i - 1)
ProdUp(f, i) == IF i = 0 THEN 1 ELSE f[i] * ProdUp(f, i - 1)
Perms == {p \in [1..N -> 1..N] : \A i, j \in 1..N : p[i] = p[j] => i = j}
RECURSIVE SumSet(_, _)
SumSet(A, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN ProdUp([i \in 1..N |-> A[i][p[i]]], N) + SumSet(A, S \ {p})
Permanent(A) == SumSet(A, Perms)

Last == IF alg = "ryser" THEN 2^N ELSE 2^(N - 1)
(* Ryser: combination of the rows in the subset (with sign -1, as the code keeps it);
   BBFG: signed sum of all rows *)
CombOf(g) == [j \in 1..N |-> SumUp([i \in 1..N |->
               IF alg = "ryser" THEN -(M[i][j] * Bit(g, i - 1)) ELSE M[i][j] * (1 - 2 * Bit(g, i - 1))], N)]
Init == /\ M \in [1..N -> [1..N -> Entries]] /\ alg \in {"ryser", "bbfg"}
        /\ k = 0 /\ gray = 0 /\ total = 0 /\ sign = 1 /\ seen = {}
        /\ comb = [j \in 1..N |-> IF alg = "ryser" THEN 0 ELSE SumUp([i \in 1..N |-> M[i][j]], N)]
Step == /\ k < Last
        /\ LET b == IF alg = "ryser" THEN (k + 1) % Last ELSE k + 1
               g == GrayOf(b)
               flips == {i \in 0..N : Bit(g, i) # Bit(gray, i)}
               r == CHOOSE i \in flips : TRUE
               d == (IF gray > g THEN 1 ELSE -1) * (IF alg = "ryser" THEN 1 ELSE 2)
           IN /\ total' = total + sign * ProdUp(comb, N)
              /\ comb' = IF r + 1 > N THEN comb ELSE [j \in 1..N |-> comb[j] + d * M[r + 1][j]]
              /\ gray' = g /\ seen' = seen \cup {gray}
        /\ k' = k + 1 /\ sign' = -sign /\ UNCHANGED <<M, alg>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OneFlip == k < Last => Cardinality({i \in 0..N : Bit(GrayOf(IF alg = "ryser" THEN (k + 1) % Last ELSE k + 1), i) # Bit(gray, i)}) = 1
CombRight == k < Last => comb = CombOf(gray)
EachOnce == Cardinality(seen) = k
Final == k = Last => IF alg = "ryser" THEN total = Permanent(M) ELSE total = 2^(N - 1) * Permanent(M)
Ends == <>(k = Last)
=============================================================================
