---------------------------- MODULE MC_Entangle ----------------------------
(***************************************************************************)
(* Design model of the measures: one- and two-mode states built by words   *)
(* of squeezers, beamsplitters and thermal noise.                          *)
(* The fidelity from the spectrum of E1 E2 equals the one-mode closed form *)
(* and is symmetric, at most 1 and 1 on equal states; the two-mode entropy *)
(* of a pure state is the same for both parties; transposing A or B gives  *)
(* the same spectrum; local symplectics change nothing.                    *)
(***************************************************************************)
EXTENDS Entangle
F(a, b) == Frac(a, b)
(* rational symplectics: squeezer diag(2, 1/2), rotation (3/5, 4/5) *)
Sq == <<<<Two, Zero>>, <<Zero, Half>>>>
Rot == <<<<F(3, 5), F(-4, 5)>>, <<F(4, 5), F(3, 5)>>>>
Rot2 == <<<<F(5, 13), F(12, 13)>>, <<F(-12, 13), F(5, 13)>>>>
Words1 == {Ident(2), Sq, MMul(Rot, Sq), MMul(Rot2, MMul(Sq, Rot)), MMul(Sq, MMul(Rot, Sq))}
Cov1(S, nu) == MScale(nu, MMul(S, MT(S)))
Nus == {One, F(3, 2), Num(4)}
Disp == {<<Zero, Zero>>, <<F(1, 3), F(-1, 2)>>}
VARIABLES S1, S2, n1, n2, d, bs, sq
Init == /\ S1 \in Words1 /\ S2 \in Words1 /\ n1 \in Nus /\ n2 \in Nus /\ d \in Disp
        /\ bs \in {<<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>} /\ sq \in {<<2, 2>>, <<2, 3>>, <<1, 3>>}
Next == UNCHANGED <<S1, S2, n1, n2, d, bs, sq>>
A == Cov1(S1, n1)
B == Cov1(S2, n2)
(* the small eigenvalue of a 2x2 matrix of determinant 1 and trace t > 2 *)
SmallQ(t) == (t -- Sqrt((t ** t) -- Num(4))) // Two
Fid1 ==
  LET a == TLCEval(A) b == TLCEval(B) f == Fidelity1(d, a, b) IN
  /\ Within(f, Fidelity1(VScale(Neg(One), d), b, a), Tiny(40))
  /\ Leq(f, One ++ Tiny(40)) /\ Lt(Zero, f)
  /\ (Within(f, One, Tiny(30)) <=> (MWithin(a, b, Tiny(20)) /\ d[1] = Zero))
  /\ (Lt(One, n1) /\ Lt(One, n2)) => LET q == SmallQ(Re(Trace(MMul(Flow(a), Flow(b))))) IN
        QSpectrum(<<q>>, a, b, Tiny(30)) /\ Within(FromQ(Overlap(d, a, b), <<q>>), f, Tiny(30))
  /\ (n1 = One) => Within(Overlap(d, a, b), f, Tiny(30))
(* two modes: squeezers, beamsplitter, then local symplectics *)
Dir(M, P) == Mat(4, 4, LAMBDA i, j : LET m == (i - 1) % 2 IN IF m # (j - 1) % 2 THEN Zero ELSE IF m = 0 THEN M[(i + 1) \div 2][(j + 1) \div 2] ELSE P[i \div 2][j \div 2])
BS == LET c == F(bs[1], bs[3]) s == F(bs[2], bs[3]) IN
  Mat(4, 4, LAMBDA i, j : IF (i <= 2) # (j <= 2) THEN Zero ELSE LET a == (i - 1) % 2 b == (j - 1) % 2 IN IF a = b THEN c ELSE IF a < b THEN s ELSE Neg(s))
Squeeze2 == DiagMat(<<Num(sq[1]), F(1, sq[2]), F(1, sq[1]), Num(sq[2])>>)
S0 == MMul(BS, Squeeze2)
Nu4 == DiagMat(<<n1, n2, n1, n2>>)
V0 == MMul(MMul(S0, Nu4), MT(S0))
Loc == Dir(S1, S2)
V1 == MMul(MMul(Loc, V0), MT(Loc))
D2(V, k) == Det(RedV(V, <<k>>))
Inv2(V) == LET M == MMul(MMul(Omega(2), V), MMul(Omega(2), V)) IN <<Trace(M), Det(V)>>
Two2 ==
  LET v == TLCEval(V0) w == TLCEval(V1) IN
  /\ IsSymplecticTo(S0, Tiny(60)) /\ IsSymplecticTo(Loc, Tiny(60))
  /\ SpectrumOf(<<n1, n2>>, v, Tiny(40)) /\ SpectrumOf(<<n1, n2>>, w, Tiny(40))
  /\ (n1 = One /\ n2 = One) => Eq(D2(w, 1), D2(w, 2))
  /\ Eq(D2(w, 1), D2(v, 1))
  /\ Inv2(PartialT(w, {1})) = Inv2(PartialT(w, {2})) /\ Inv2(PartialT(w, {1})) = Inv2(PartialT(v, {1}))
  /\ Inv2(PartialT(w, {1, 2})) = Inv2(w)
=============================================================================
