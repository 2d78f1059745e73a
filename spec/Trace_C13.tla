----------------------------- MODULE Trace_C13 -----------------------------
(***************************************************************************)
(* C13: every Fock-space query about one state is a projection of the one  *)
(* operator whose elements are Gaussian!Element.                           *)
(***************************************************************************)
EXTENDS TraceBase, Gaussian
Q(e) == LET mu == Nums(e.in.mu) V == Nums(e.in.V) h == Num(e.in.hbar)
        IN [A |-> KernelA(V, h), g |-> KernelG(mu, V, h), c |-> VacProb(mu, V, h)]
(* ps[i] = 9: mode i is free, otherwise it is post-selected on ps[i] photons *)
Free(ps) == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : ps[i] = 9)
PosIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Fill(ps, m) == LET f == Free(ps) IN [i \in 1..Len(ps) |-> IF ps[i] = 9 THEN m[PosIn(f, i)] ELSE ps[i]]
Cuts(ps, c) == [i \in 1..Len(ps) |-> IF ps[i] = 9 THEN c ELSE ps[i] + 1]
Flat(x) == x
RECURSIVE At(_, _)
At(a, idx) == IF idx = <<>> THEN a ELSE At(a[idx[1] + 1], Tail(idx))
Rep(c, k) == [i \in 1..k |-> c]
Box(c, k) == {Unravel(i, Rep(c, k)) : i \in 0..(BoxSize(Rep(c, k)) - 1)}
(* rows and columns of a Strawberry Fields ordered index *)
RowOf(ix) == [i \in 1..(Len(ix) \div 2) |-> ix[2 * i - 1]]
ColOf(ix) == [i \in 1..(Len(ix) \div 2) |-> ix[2 * i]]
Elements(q, ps, c) ==
  LET cuts == Cuts(ps, c) \o Cuts(ps, c)
      tab == TLCEval(RepHafTable(q.A, q.g, cuts))
      E(m, n) == LET a == Fill(ps, m) b == Fill(ps, n)
                 IN q.c ** (tab[Ravel(a \o b, cuts) + 1] // (SqrtFact(a) ** SqrtFact(b)))
  IN TLCEval([ix \in Box(c, 2 * Len(Free(ps))) |-> E(RowOf(ix), ColOf(ix))])
T9 == Tiny(9)
ListI(s) == ToString(s)
FirstBad(S, name) == IF S = {} THEN {} ELSE LET i == CHOOSE i \in S : \A j \in S : Ravel(i, Rep(100, Len(i))) <= Ravel(j, Rep(100, Len(j))) IN {name \o ListI(i)}
Judge(e) ==
  CASE e.op = "density_matrix" ->
        LET q == Q(e) ps == e.in.ps c == e.in.cut k == Len(Free(ps))
            el == Elements(q, ps, c)
            B == Box(c, k)
            tr == SumF([m \in B |-> el[[i \in 1..(2 * k) |-> m[(i + 1) \div 2]]]])
            got == Nums(e.out.v)
            w == IF e.in.normalize THEN tr ELSE One
            tol == T9 // (IF e.in.normalize THEN tr ELSE One)
        IN Then(Array(e, Rep(c, 2 * k)),
             FirstBad({ix \in DOMAIN el : ~Within(At(got, ix), el[ix] // w, tol)}, "density_matrix differs from <m|rho|n> at ")
             \cup FirstBad({ix \in DOMAIN el : ~Within(At(got, ix), Conj(At(got, [i \in 1..Len(ix) |-> IF i % 2 = 1 THEN ix[i + 1] ELSE ix[i - 1]])), T9 ++ tol)}, "density_matrix not Hermitian at "))
    [] e.op = "density_matrix_element" ->
        LET q == Q(e) w == ElementOf(q.A, q.g, IF e.in.pref THEN q.c ELSE One, e.in.i, e.in.j)
            tol == T9 ** (Abs(w) ++ (IF e.in.pref THEN One ELSE Max2(One, One // q.c)))
            got == Num(e.out.v)
        IN Then(Scalar(e),
             IF ~Within(got, w, tol) /\ Within(got, Conj(w), tol) THEN {"density_matrix_element(i, j) is <j|rho|i>, documented as <i|rho|j>"}
             ELSE Near(got, w, tol, "density_matrix_element " \o ListI(e.in.i) \o ListI(e.in.j)))
    [] e.op = "state_vector" ->
        LET q == Q(e) ps == e.in.ps c == e.in.cut k == Len(Free(ps))
            cuts == Cuts(ps, c) \o Cuts(ps, c)
            B == Box(c, k)
            P(m) == LET a == Fill(ps, m) IN ElementOf(q.A, q.g, q.c, a, a)
            pr == TLCEval([m \in B |-> P(m)])
            piv == CHOOSE m \in B : \A n \in B : Leq(pr[n], pr[m])
            tr == SumF(pr)
            col == TLCEval([m \in B |-> ElementOf(q.A, q.g, q.c, Fill(ps, m), Fill(ps, piv))])
            got == Nums(e.out.v)
            w == IF e.in.normalize THEN tr ELSE One
            tol == T9 // w
        IN Then(Array(e, Rep(c, k)),
             FirstBad({m \in B : ~Within(At(got, m) ** Conj(At(got, piv)), col[m] // w, tol)}, "state_vector: psi(m) psi(n)* differs from <m|rho|n>, n=" \o ListI(piv) \o ", m="))
    [] e.op = "amplitude" -> (* the amplitude of i, relative to that of the pivot j *)
        LET q == Q(e) s == e.in.scale IN
        Then(Returned(e),
          LET a == Num(e.out.v[1].v) b == Num(e.out.v[2].v)
              f == IF e.in.pref THEN q.c ELSE One
              (* |prefactor|^2 = |c| sqrt(det Q)... the unnormalised amplitudes satisfy the same relation up to one factor *)
              w == ElementOf(q.A, q.g, q.c, e.in.i, e.in.j)
              x == ElementOf(q.A, q.g, q.c, e.in.j, e.in.j)
          IN IF e.in.pref THEN Near(a ** Conj(b), w, T9, "pure_state_amplitude(i) pure_state_amplitude(j)* vs <i|rho|j>, i=" \o ListI(e.in.i) \o " j=" \o ListI(e.in.j))
             ELSE Near((a ** Conj(b)) ** x, w ** Abs2(b), T9 ** (One ++ Abs2(a) ++ Abs2(b)), "amplitudes without prefactor are not proportional to the state"))
    [] e.op = "same" -> (* two projections of one state, entry by entry *)
        Then(Returned(e), Then(Req(e.out.v[1].shape = e.out.v[2].shape, e.in.fn \o ": shapes differ"),
           VNear(Nums(e.out.v[1].v), Nums(e.out.v[2].v), T9 ** (One ++ MaxAbs(Nums(e.out.v[2].v))), e.in.fn)))
    [] e.op = "probabilities" ->
        LET q == Q(e) c == e.in.cut N == Len(e.in.V) \div 2 got == Nums(e.out.v) IN
        Then(Array(e, Rep(c, N)),
          FirstBad({m \in Box(c, N) : ~Within(At(got, m), ElementOf(q.A, q.g, q.c, m, m), T9) \/ Lt(At(got, m), Zero)}, "probabilities differ from <n|rho|n> at "))
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
