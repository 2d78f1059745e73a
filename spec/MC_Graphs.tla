------------------------------ MODULE MC_Graphs ------------------------------
(***************************************************************************)
(* Design model of the graph encodings over all symmetric matrices with    *)
(* entries in a small set (n <= 3) and a growing scaling c = k/20: photon  *)
(* and click numbers grow with c (so the target determines c), the two     *)
(* expressions of the photon number agree, <= clicks <= photons, the       *)
(* encoded state is pure, and the rank-one law is the hafnian law.         *)
(***************************************************************************)
EXTENDS Graphs
Quick == TRUE
Ent == {Zero, One, Neg(Half), Cx(Zero, One)}
Low(n) == {<<i, j>> \in (1..n) \X (1..n) : j <= i}
VARIABLES n, A, k
Init == n \in 1..2 /\ k = 1 /\ \E f \in [Low(n) -> Ent] : A = [i \in 1..n |-> [j \in 1..n |-> IF j <= i THEN f[<<i, j>>] ELSE f[<<j, i>>]]]
C(j) == Frac(j, 20)
Next == k < 12 /\ Encodable(A, C(k + 1)) /\ k' = k + 1 /\ UNCHANGED <<n, A>>
NonZero == \E i \in 1..n : \E j \in 1..n : A[i][j] # Zero
Enc(j) == Encodable(A, C(j))
Grow == (Enc(k) /\ k > 1 /\ NonZero) => /\ Lt(Photons(A, C(k - 1)), Photons(A, C(k)))
                                        /\ Lt(MeanClicks(A, C(k - 1)), MeanClicks(A, C(k)))
Same == Enc(k) => LET Q == GraphQ(A, C(k)) IN
  /\ Within(PhotonsQ(Q), Photons(A, C(k)), Tiny(40))
  /\ Leq(ClicksQ(Q), PhotonsQ(Q) ++ Tiny(40)) /\ Leq(ClicksQ(Q), Num(n))
  (* pure: the covariance (2Q-1) has determinant 1 *)
  /\ Within(Abs2(Det(MSub(MScale(Two, Q), Ident(2 * n)))), One, Tiny(40))
Pats == {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, <<0, 2>>, <<2, 2>>, <<3, 1>>, <<1, 2>>, <<4, 0>>}
RankOne == (n = 2 /\ k = 1) =>
  LET G == <<A[1][1] ++ Frac(1, 3), A[2][1] -- Frac(1, 2)>>
      R == Mat(2, 2, LAMBDA i, j : G[i] ** G[j])
      w == SumF([i \in 1..2 |-> Abs2(G[i])])
      t == Frac(3, 5)   (* tanh r *)
      m == (t ** t) // (One -- (t ** t))
  IN \A p \in Pats : Within(RankOneLaw(G, m, p), GraphLaw(R, t // w, p), Tiny(40))
Normal == (n = 2 /\ k = 1) => LET m == Frac(1, 4) IN Within(SumF([j \in 0..60 |-> OneSqueezed(j, m)]), One, Tiny(40)) /\ Within(SumF([j \in 0..60 |-> Num(2 * j) ** OneSqueezed(j, m)]), m, Tiny(38))
=============================================================================
