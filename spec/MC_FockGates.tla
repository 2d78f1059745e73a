---------------------------- MODULE MC_FockGates ----------------------------
(***************************************************************************)
(* The kernels of FockGates.tla are the gates: at every parameter point,   *)
(*  - at a = 0 the gate is the identity,                                   *)
(*  - dU/da = G U with G the gate's generator, for every element (the      *)
(*    generator only reaches elements one or two levels up, so truncation  *)
(*    does not matter),                                                    *)
(*  - changing the phase b is conjugation with the number operator,        *)
(*  - MZ is the product beam splitter, phase, beam splitter, phase.        *)
(* One state per gate and parameter point.                                 *)
(***************************************************************************)
EXTENDS FockGates
Gates == {"displacement", "squeezing", "two_mode_squeezing", "beamsplitter", "mzgate"}
As == {Zero, Frac(3, 10), Neg(Frac(7, 5)), Frac(21, 10)}
Bs == {Zero, Frac(7, 10), Neg(Frac(11, 3))}
VARIABLES g, a, b, done
C == 3
Init == g \in Gates /\ a \in As /\ b \in Bs /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<g, a, b>>
Sq(n) == Sqrt(Num(n))
Eps == Tiny(30)
E1(t, m, n) == IF m < 0 \/ n < 0 THEN Zero ELSE t[Ravel(<<m, n>>, <<C + 2, C>>) + 1]
E2(t, m, n, p, q) == IF m < 0 \/ n < 0 \/ p < 0 \/ q < 0 THEN Zero ELSE t[Ravel(<<m, n, p, q>>, <<C + 1, C + 1, C, C>>) + 1]
Gen1(t, m, n) ==
  IF g = "displacement" THEN (Ph(b) ** Sq(m) ** E1(t, m - 1, n)) -- (Ph(Neg(b)) ** Sq(m + 1) ** E1(t, m + 1, n))
  ELSE Half ** ((Ph(Neg(b)) ** Sq((m + 1) * (m + 2)) ** E1(t, m + 2, n)) -- (Ph(b) ** Sq(m * (IF m = 0 THEN 0 ELSE m - 1)) ** E1(t, m - 2, n)))
Gen2(t, m, n, p, q) ==
  IF g = "two_mode_squeezing" THEN (Ph(b) ** Sq(m * n) ** E2(t, m - 1, n - 1, p, q)) -- (Ph(Neg(b)) ** Sq((m + 1) * (n + 1)) ** E2(t, m + 1, n + 1, p, q))
  ELSE (Ph(b) ** Sq((m + 1) * n) ** E2(t, m + 1, n - 1, p, q)) -- (Ph(Neg(b)) ** Sq(m * (n + 1)) ** E2(t, m - 1, n + 1, p, q))
One1 == LET t == GateTable(g, a, b, <<C + 2, C>>) d == DGate(g, a, b, <<C + 2, C>>, 1) IN
  \A m \in 0..(C - 1), n \in 0..(C - 1) : Within(E1(d, m, n), Gen1(t, m, n), Eps)
One2 == LET cut == <<C + 1, C + 1, C, C>> t == GateTable(g, a, b, cut) d == DGate(g, a, b, cut, 1) IN
  \A m, n, p, q \in 0..(C - 1) : Within(E2(d, m, n, p, q), Gen2(t, m, n, p, q), Eps)
SolvesODE == g # "mzgate" => IF NM(g) = 1 THEN One1 ELSE One2
IdentityAtZero == (g # "mzgate" /\ a = Zero) =>
  LET k == NM(g) cut == [i \in 1..(2 * k) |-> C] t == GateTable(g, a, b, cut) IN
  \A i \in 1..Len(t) : LET x == Unravel(i - 1, cut) IN Within(t[i], IF SubSeq(x, 1, k) = SubSeq(x, k + 1, 2 * k) THEN One ELSE Zero, Eps)
(* the phase enters as U(a, b) = R(b) U(a, 0) R(b)^dag on the first mode (twice that for squeezing of one or two modes together) *)
Wt(x) == CASE g = "displacement" -> 2 * (x[1] - x[2]) [] g = "squeezing" -> x[1] - x[2]
           [] g = "two_mode_squeezing" -> 2 * (x[1] - x[3]) [] g = "beamsplitter" -> 2 * (x[2] - x[4]) [] g = "mzgate" -> 2 * x[3]
PhaseLaw == LET cut == [i \in 1..(2 * NM(g)) |-> C] t == GateTable(g, a, b, cut) z == GateTable(g, a, Zero, cut) IN
  \A i \in 1..Len(t) : Within(t[i], Ph((Num(Wt(Unravel(i - 1, cut))) ** b) // Two) ** z[i], Eps)
AreTheGates == SolvesODE /\ IdentityAtZero /\ PhaseLaw
=============================================================================
