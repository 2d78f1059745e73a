----------------------------- MODULE Montrealer -----------------------------
(***************************************************************************)
(* The vertices 1..2n are paired v ~ Partner(v) = v +- n (a mode).         *)
(* Montrealer: the sum over the perfect matchings whose union with the     *)
(* pairing is one cycle; with loops also over the single-pair matchings    *)
(* whose union with the pairing is one path (its two ends carry loops).    *)
(* Two equivalent definitions: by filtering all matchings (ByFilter) and   *)
(* by walking along the cycle or path (ByWalk); MC_Montrealer checks that  *)
(* they agree.                                                             *)
(***************************************************************************)
EXTENDS Hafnians
Partner(v, n) == IF v <= n THEN v + n ELSE v - n
(* all ways to split S into pairs and singletons: sets of sets *)
RECURSIVE SPM(_)
SPM(S) == IF S = {} THEN {{}}
          ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y
               IN {P \cup {{x}} : P \in SPM(S \ {x})}
                  \cup UNION {{P \cup {{x, y}} : P \in SPM(S \ {x, y})} : y \in S \ {x}}
RECURSIVE Reach(_, _, _)
Reach(P, n, S) == LET T == S \cup {Partner(v, n) : v \in S} \cup UNION {B \in P : B \cap S # {}}
                  IN IF T = S THEN S ELSE Reach(P, n, T)
Connected(P, n) == n = 0 \/ Reach(P, n, {1}) = 1..(2 * n)
Singles(P) == {B \in P : Cardinality(B) = 1}
Cycles(n) == {P \in SPM(1..(2 * n)) : Singles(P) = {} /\ Connected(P, n)}
Paths(n)  == {P \in SPM(1..(2 * n)) : Cardinality(Singles(P)) = 2 /\ Connected(P, n)}
Weight(A, P) == ProdF([B \in P |-> LET x == CHOOSE x \in B : \A y \in B : x <= y
                                       y == CHOOSE y \in B : \A z \in B : z <= y IN A[x][y]])
ByFilter(A, loop) == LET n == Len(A) \div 2 IN
   SumF([P \in (IF loop THEN Cycles(n) \cup Paths(n) ELSE Cycles(n)) |-> Weight(A, P)])

(* all continuations from vertex v through the modes R, ended by E(u) at the last vertex u *)
RECURSIVE Walks(_, _, _, _, _)
Walks(A, n, v, R, end) ==
  IF R = {} THEN end[v]
  ELSE SumF([m \in R |-> (A[v][m] ** Walks(A, n, m + n, R \ {m}, end)) ++ (A[v][m + n] ** Walks(A, n, m, R \ {m}, end))])
CycleSum(A) == LET n == Len(A) \div 2 IN
   Walks(A, n, 1 + n, 2..n, TLCEval([u \in 1..(2 * n) |-> A[u][1]]))
(* every path is walked from both of its ends; start: loop at s, cross to its partner *)
PathSum(A) == LET n == Len(A) \div 2
                  end == TLCEval([u \in 1..(2 * n) |-> A[u][u]])
              IN Half ** SumF([s \in 1..(2 * n) |-> A[s][s] ** Walks(A, n, Partner(s, n), (1..n) \ {IF s <= n THEN s ELSE s - n}, end)])
ByWalk(A, loop) == IF loop THEN CycleSum(A) ++ PathSum(A) ELSE CycleSum(A)
=============================================================================
