-------------------------- MODULE MC_GaussUnitary --------------------------
(***************************************************************************)
(* The two descriptions of a Gaussian unitary agree: for words of up to    *)
(* two elementary gates the kernel from the symplectic matrix has          *)
(*  - for one gate, the gate's own kernel,                                 *)
(*  - columns whose vacuum part is the state S S^T with mean alpha         *)
(*    (density matrix elements of Gaussian.tla),                           *)
(*  - the composition law <m|UV|0> for passive second gates,               *)
(*  - number conservation when every gate is passive.                      *)
(* States are words; transitions append a gate.                            *)
(***************************************************************************)
EXTENDS GaussUnitary, IOUtils
MaxWord == IF IOEnv.WALRUS_TIER = "quick" THEN 1 ELSE 2
Gs == {"displacement", "squeezing", "two_mode_squeezing", "beamsplitter", "mzgate"}
Ps == {<<Frac(3, 10), Frac(7, 10)>>, <<Neg(Frac(4, 5)), Neg(Frac(9, 4))>>}
(* a one-mode gate acts on mode m of two *)
Lift(S, m) == IF Len(S) = 4 THEN S ELSE
  Mat(4, 4, LAMBDA i, j : LET on(k) == k = m \/ k = m + 2 ix(k) == IF k = m THEN 1 ELSE 2 IN
    IF on(i) /\ on(j) THEN S[ix(i)][ix(j)] ELSE IF i = j THEN One ELSE Zero)
LiftA(al, m) == IF Len(al) = 2 THEN al ELSE [i \in 1..2 |-> IF i = m THEN al[1] ELSE Zero]
VARIABLES word, S, al
Init == word = <<>> /\ S = Ident(4) /\ al = ZeroVec(2)
(* D(al') U_G D(al) U_S = D(al' + E al + F conj al) U_{G S} up to a phase *)
Step(g, p, m) ==
  LET G == Lift(SympG(g, p[1], p[2]), m) IN
  /\ word' = Append(word, g)
  /\ S' = MRound(MMul(G, S), Prec)
  /\ al' = VAdd(LiftA(AlphaG(g, p[1], p[2]), m), VAdd(MVec(EMat(G), al), MVec(FMat(G), VConj(al))))
Next == Len(word) < MaxWord /\ \E g \in Gs, p \in Ps, m \in 1..2 : Step(g, p, m)
Eps == Tiny(40)
C == 3
Cut4 == <<C, C, C, C>>
T == UTable(S, al, Cut4)
E4(t, m, n) == t[Ravel(m \o n, Cut4) + 1]
Ix == {<<i, j>> : i \in 0..(C - 1), j \in 0..(C - 1)}
Mu == LET s == Two IN [i \in 1..4 |-> IF i <= 2 THEN s ** Re(al[i]) ELSE s ** Im(al[i - 2])]
IsSymplectic == MWithin(MMul(MMul(S, Omega(2)), MT(S)), Omega(2), Eps)
VacuumColumn ==
  LET t == T V == MMul(S, MT(S)) A == KernelA(V, Two) g == KernelG(Mu, V, Two) c == VacProb(Mu, V, Two) IN
  \A m, n \in Ix : Within(E4(t, m, <<0, 0>>) ** Conj(E4(t, n, <<0, 0>>)), ElementOf(A, g, c, m, n), Eps)
AllPassive == \A i \in 1..Len(word) : word[i] \in {"beamsplitter", "mzgate"}
Conserved == AllPassive => LET t == T IN \A m, n \in Ix : (m[1] + m[2] # n[1] + n[2]) => Within(E4(t, m, n), Zero, Eps)
(* the adjoint of U is its inverse: kernel of S^-1, -al transformed *)
Adjoint ==
  LET Si == Inverse(S) E == EMat(Si) F == FMat(Si)
      b == VScale(Neg(One), VAdd(MVec(E, al), MVec(F, VConj(al))))
      t == T u == UTable(Si, b, Cut4)
      p == Conj(E4(u, <<0, 0>>, <<0, 0>>)) // E4(t, <<0, 0>>, <<0, 0>>)
  IN \A m, n \in Ix : Within(Conj(E4(u, n, m)), p ** E4(t, m, n), Eps)
Holds == IsSymplectic /\ VacuumColumn /\ Conserved /\ Adjoint
(* single gates: the kernel from S is the gate's kernel *)
GateKernels == word = <<>> => \A g \in Gs, p \in Ps :
  LET cut == [i \in 1..(2 * NM(g)) |-> C] IN
  VWithin(UTable(SympG(g, p[1], p[2]), AlphaG(g, p[1], p[2]), cut), GateTable(g, p[1], p[2], cut), Eps)
=============================================================================
