---------------------------- MODULE GaussCircuit ----------------------------
(***************************************************************************)
(* Gaussian circuits as a state machine over the annihilation operators.   *)
(* State: q = [a |-> <a_i>, n |-> <a_i^dag a_j> centred, m |-> <a_i a_j>   *)
(* centred].  A unitary step is a Bogoliubov map a -> U a + W a^dag, given *)
(* by its action on the addressed modes only; a channel step contracts the *)
(* normally ordered moments.                                               *)
(***************************************************************************)
EXTENDS Gaussian

VacuumQ(N) == [a |-> ZeroVec(N), n |-> ZeroMat(N, N), m |-> ZeroMat(N, N)]
(* a k-mode matrix on the modes w (sequence), diagonal d elsewhere *)
Embed(B, w, N, d) == Mat(N, N, LAMBDA i, j :
   LET ri == {k \in 1..Len(w) : w[k] = i}
       cj == {k \in 1..Len(w) : w[k] = j}
   IN IF ri # {} /\ cj # {} THEN B[CHOOSE k \in ri : TRUE][CHOOSE k \in cj : TRUE]
      ELSE IF i = j THEN d ELSE Zero)
Add3(A, B, C) == MAdd(MAdd(A, B), C)
Bogoliubov(q, U, W) ==
  LET N == Len(U)
      NT == MAdd(Ident(N), MT(q.n))        \* <a_i a_j^dag>
      Uc == MConj(U) Wc == MConj(W) UT == MT(U) WT == MT(W) Mc == MConj(q.m)
  IN [a |-> VAdd(MVec(U, q.a), MVec(W, VConj(q.a))),
      n |-> MAdd(MAdd(MMul(MMul(Uc, q.n), UT), MMul(MMul(Wc, NT), WT)),
                 MAdd(MMul(MMul(Uc, Mc), WT), MMul(MMul(Wc, q.m), UT))),
      m |-> MAdd(MAdd(MMul(MMul(U, q.m), UT), MMul(MMul(U, NT), WT)),
                 MAdd(MMul(MMul(W, q.n), UT), MMul(MMul(W, Mc), WT)))]
Unitary(q, u, w, modes) == LET N == Len(q.a) IN Bogoliubov(q, Embed(u, modes, N, One), Embed(w, modes, N, Zero))
Z2 == <<<<Zero, Zero>>, <<Zero, Zero>>>>
(* the gates; e is the phase factor e^{i phi} *)
SqueezeG(q, ch, sh, e, i)     == Unitary(q, <<<<ch>>>>, <<<<Neg(e ** sh)>>>>, <<i>>)
TwoModeSqueezeG(q, ch, sh, e, i, j) ==
   Unitary(q, <<<<ch, Zero>>, <<Zero, ch>>>>, <<<<Zero, e ** sh>>, <<e ** sh, Zero>>>>, <<i, j>>)
RotateG(q, e, i)              == Unitary(q, <<<<e>>>>, <<<<Zero>>>>, <<i>>)
BeamSplitG(q, c, s, e, i, j)  == Unitary(q, <<<<c, Neg(Conj(e) ** s)>>, <<e ** s, c>>>>, Z2, <<i, j>>)
InterferometerG(q, u, modes)  == Unitary(q, u, MScale(Zero, u), modes)
DisplaceG(q, al, i)           == [q EXCEPT !.a[i] = @ ++ al]
(* any contraction T (rows: outputs) with vacuum in the environment *)
PassiveG(q, T) == [a |-> MVec(T, q.a), n |-> MMul(MMul(MConj(T), q.n), MT(T)), m |-> MMul(MMul(T, q.m), MT(T))]
(* rounding far below double precision, for long recorded histories *)
RoundQ(q) == [a |-> MRound(<<q.a>>, Prec)[1], n |-> MRound(q.n, Prec), m |-> MRound(q.m, Prec)]
(* transmission t = rt^2, thermal environment nbar *)
LossG(q, rt, nbar, i) ==
   LET N == Len(q.a)
       r == PassiveG(q, Embed(<<<<rt>>>>, <<i>>, N, One))
   IN [r EXCEPT !.n[i][i] = @ ++ ((One -- (rt ** rt)) ** nbar)]

(* the moments in the ordering (x.., p..) *)
MuOf(q, hbar) == LET N == Len(q.a) s == Sqrt(Two ** hbar) IN
   Vec(2 * N, LAMBDA i : s ** (IF i <= N THEN Re(q.a[i]) ELSE Im(q.a[i - N])))
VOf(q, hbar) == LET N == Len(q.a)
                    d(i, j) == IF i = j THEN Half ELSE Zero IN
   Mat(2 * N, 2 * N, LAMBDA i, j : hbar **
     (IF i <= N THEN (IF j <= N THEN Re(q.m[i][j]) ++ Re(q.n[i][j]) ++ d(i, j)
                      ELSE Im(q.m[i][j - N]) ++ Im(q.n[i][j - N]))
      ELSE (IF j <= N THEN Im(q.m[i - N][j]) ++ Im(q.n[j][i - N])
            ELSE (Re(q.n[i - N][j - N]) -- Re(q.m[i - N][j - N])) ++ d(i, j))))
ReducedQ(q, w) == [a |-> SubV(q.a, w), n |-> SubM(q.n, w), m |-> SubM(q.m, w)]
MeanPhotons(q, i) == Re(q.n[i][i]) ++ Abs2(q.a[i])
(* variance of the photon number of mode i *)
VarPhotons(q, i) ==
  LET n == Re(q.n[i][i]) m == q.m[i][i] a == q.a[i]
  IN (n ** n) ++ n ++ Abs2(m) ++ (Abs2(a) ** ((Two ** n) ++ One)) ++ (Two ** Re(Conj(m) ** (a ** a)))
(* uncertainty relation: V + i hbar Omega/2 >= 0 (all principal minors) *)
Valid(q) == LET V == VOf(q, Two) N == Len(q.a)
                B == MAdd(V, MScale(ImagUnit, Omega(N)))
            IN \A S \in (SUBSET (1..(2 * N))) \ {{}} : Leq(Zero, Re(Det(SubM(B, SetSeq(S)))))
PurityInv(q) == Det(VOf(q, Two))     \* 1 exactly for pure states
=============================================================================
