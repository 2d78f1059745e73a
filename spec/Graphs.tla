------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Graphs in Gaussian states.  The matrix B = c A (symmetric, singular     *)
(* values below 1) is encoded in the pure state with                       *)
(*   Q = (1 - X (B + conj B))^-1,                                          *)
(* whose photon numbers have <n_j> = Q_jj - 1 and vacuum probability       *)
(* 1/sqrt(det Q) on any subset of the modes.  The positive semidefinite    *)
(* A is encoded in thermal light with mean photon numbers c l/(1 - c l)    *)
(* over the eigenvalues l.                                                 *)
(***************************************************************************)
EXTENDS Predicates
DirectConj(B) == LET n == Len(B) IN Mat(2 * n, 2 * n, LAMBDA i, j : IF i <= n /\ j <= n THEN B[i][j] ELSE IF i > n /\ j > n THEN Conj(B[i - n][j - n]) ELSE Zero)
QInv(B) == MSub(Ident(2 * Len(B)), MMul(Xmat(Len(B)), DirectConj(B)))
GraphQ(A, c) == MRound(Inverse(QInv(MScale(c, A))), Prec)
(* c A can be encoded *)
Encodable(A, c) == PosDef(MSub(Ident(Len(A)), MScale(c ** c, MMul(A, MDag(A)))))
PhotonsQ(Q) == (Re(Trace(Q)) // Two) -- Num(Len(Q) \div 2)
ClicksQ(Q) == LET n == Len(Q) \div 2 IN SumF([i \in 1..n |-> One -- (One // Sqrt(Re(Det(SubM(Q, <<i, i + n>>)))))])
(* total photon number through the singular values: sum s^2/(1-s^2) *)
PhotonsSV(A, c) == Re(Trace(Inverse(MSub(Ident(Len(A)), MScale(c ** c, MMul(A, MDag(A))))))) -- Num(Len(A))
(* both grow with c: c is the scaling of the target t when the target lies
   between the values slightly below and slightly above c *)
Below(F(_, _), A, c, t) == Leq(c, Zero) \/ (Encodable(A, c) /\ Leq(F(A, c), t))
Above(F(_, _), A, c, t) == Lt(Zero, c) /\ (~Encodable(A, c) \/ Leq(t, F(A, c)))
ScaleOk(F(_, _), A, c, t, d) == Leq(Zero, c) /\ Below(F, A, c -- d, t) /\ Above(F, A, c ++ d, t)
Photons(A, c) == PhotonsSV(A, c)
MeanClicks(A, c) == ClicksQ(GraphQ(A, c))
(* thermal encoding with factor s (1: thermal, 2: squashed) *)
ThermalOk(A, c) == PosDef(MSub(Ident(Len(A)), MScale(c, A)))
ThermalPhotons(A, c) == Re(Trace(Inverse(MSub(Ident(Len(A)), MScale(c, A))))) -- Num(Len(A))
ThermalScaleOk(A, c, t, d) ==
  /\ Leq(Zero, c)
  /\ (Leq(c -- d, Zero) \/ (ThermalOk(A, c -- d) /\ Leq(ThermalPhotons(A, c -- d), t)))
  /\ (~ThermalOk(A, c ++ d) \/ Leq(t, ThermalPhotons(A, c ++ d)))
(* the scaling that makes B closest to A *)
Ratio(B, A) == SumF([i \in 1..Len(A) |-> SumF([j \in 1..Len(A) |-> B[i][j] ** Conj(A[i][j])])]) // SumF([i \in 1..Len(A) |-> SumF([j \in 1..Len(A) |-> Abs2(A[i][j])])])

(* ---- rank one: A = G G^T with total mean photon number m ----
   even totals 2k with the law of one squeezed mode, spread over the modes
   with probabilities |G|^2 *)
OneSqueezed(k, m) == (FactQ(2 * k) // (Pow(Num(4), k) ** FactQ(k) ** FactQ(k))) ** (Pow(m // (One ++ m), k) // Sqrt(One ++ m))
RECURSIVE TotalN(_)
TotalN(n) == IF n = <<>> THEN 0 ELSE Head(n) + TotalN(Tail(n))
RankOneLaw(G, m, n) ==
  LET t == TotalN(n) w == SumF([i \in 1..Len(G) |-> Abs2(G[i])]) IN
  IF t % 2 = 1 THEN Zero
  ELSE OneSqueezed(t \div 2, m) ** (FactQ(t) // ProdF([i \in 1..Len(n) |-> FactQ(n[i])])) ** ProdF([i \in 1..Len(n) |-> Pow(Abs2(G[i]) // w, n[i])])
(* the same from the definition: |haf((cA)_n)|^2 / n! times the vacuum probability *)
GraphLaw(A, c, n) == (Abs2(RepHaf(MScale(c, A), ZeroVec(Len(A)), n)) // ProdF([i \in 1..Len(n) |-> FactQ(n[i])]))
                     ** Sqrt(Re(Det(MSub(Ident(Len(A)), MScale(c ** c, MMul(A, MDag(A)))))))
=============================================================================
