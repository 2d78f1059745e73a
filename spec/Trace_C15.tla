----------------------------- MODULE Trace_C15 -----------------------------
(***************************************************************************)
(* C15: per-mode channels (Channels.tla), marginals, truncation bounds and *)
(* classical subsystems.                                                   *)
(***************************************************************************)
EXTENDS TraceBase, Predicates, Channels
RECURSIVE FlatN(_, _)
RECURSIVE Cat(_, _, _)
(* row-major entries of a nested array of depth d *)
Cat(a, d, k) == IF k = 0 THEN <<>> ELSE Cat(a, d, k - 1) \o FlatN(a[k], d - 1)
FlatN(a, d) == IF d = 0 THEN <<a>> ELSE Cat(a, d, Len(a))
Rep(c, k) == [i \in 1..k |-> c]
TensorNear(e, sh, want, tol, name) ==
  Then(Array(e, sh), LET got == FlatN(Nums(e.out.v), Len(sh))
                         bad_ == {p \in 1..Len(want) : ~Within(got[p], want[p], tol)}
                     IN IF bad_ = {} THEN {} ELSE LET p == CHOOSE p \in bad_ : \A r \in bad_ : p <= r
                        IN {name \o " at " \o ToString(Unravel(p - 1, sh)) \o ": code " \o Show(got[p]) \o " spec " \o Show(want[p])})
TolOf(e) == IF e.in.f32 THEN Tiny(4) ELSE Tiny(11)
Single(s) == [A |-> s, g |-> s]
St(e) == LET mu == Nums(e.in.mu) V == Nums(e.in.V) h == Num(e.in.hbar) IN [mu |-> mu, V |-> V, h |-> h]
ProbTable(s, Z, cut) == (* row-major distribution of the modes Z in that order *)
  LET mu == RedMu(s.mu, Z) V == RedV(s.V, Z) A == KernelA(V, s.h) g == KernelG(mu, V, s.h) c == VacProb(mu, V, s.h)
      cuts == Rep(cut, Len(Z))
  IN TLCEval([p \in 1..BoxSize(cuts) |-> LET n == Unravel(p - 1, cuts) IN ElementOf(A, g, c, n, n)])
RECURSIVE AtIx(_, _)
AtIx(a, idx) == IF idx = <<>> THEN a ELSE AtIx(a[idx[1]], Tail(idx))
LeadV(V, k) == RedV(V, [i \in 1..k |-> i])
Judge(e) ==
  CASE e.op = "loss" ->
        LET sh == e.in.sh T == FlatN(Nums(e.in.T), Len(sh)) IN TensorNear(e, sh, Loss(T, sh, Nums(e.in.etas)), TolOf(e), "loss " \o ToString(sh))
    [] e.op = "noise" ->
        LET sh == e.in.sh T == FlatN(Nums(e.in.T), Len(sh)) IN TensorNear(e, sh, Noise(T, sh, Nums(e.in.qs)), TolOf(e), "noise " \o ToString(sh))
    [] e.op = "loss_mat" ->
        LET c == e.in.cut K == LossK(Num(e.in.eta), c) IN
        IF c = 0 THEN Shape(e, <<0, 0>>) ELSE ArrayMNear(e, MT(K), Tiny(12), "loss_mat")
    [] e.op = "reject" -> Raised(e, {"ValueError"})
    [] e.op = "marginals" ->
        LET s == St(e) N == Len(e.in.V) \div 2 n == e.in.n c == e.in.cut
            ks == {x \in UNION {[1..k -> 1..N] : k \in 1..n} : \A a, b \in 1..Len(x) : a < b => x[a] < x[b]}
            tab == TLCEval([x \in ks |-> ProbTable(s, x, c)])
            Srt(x) == SetSeq({x[i] : i \in 1..Len(x)})
            (* P_x[i] = P_sorted[i rearranged] *)
            Want(x, i) == LET z == Srt(x) IN tab[z][Ravel([k \in 1..Len(z) |-> i[CHOOSE l \in 1..Len(x) : x[l] = z[k]]], Rep(c, Len(z))) + 1]
            (* the inverse rearrangement (known finding K02): same as Want for involutions *)
            WantInv(x, i) == LET z == Srt(x) perm(k) == CHOOSE l \in 1..Len(x) : x[l] = z[k]
                             IN tab[z][Ravel([k \in 1..Len(z) |-> i[CHOOSE l \in 1..Len(x) : perm(l) = k]], Rep(c, Len(z))) + 1]
            Differ(x, W(_, _)) == \E p \in 0..(BoxSize(Rep(c, Len(x))) - 1) :
                          LET i == Unravel(p, Rep(c, Len(x))) IN
                          ~Within(AtIx(Nums(e.out.v[Len(x)].v), x \o [k \in 1..Len(x) |-> i[k] + 1]), W(x, i), Tiny(9))
            off == {x \in UNION {[1..k -> 1..N] : k \in 1..n} : (\A a, b \in 1..Len(x) : a # b => x[a] # x[b]) /\ Differ(x, Want)}
            bads == {x \in off : Differ(x, WantInv)}
        IN Then(Returned(e), Then(
             Req(Len(e.out.v) = n /\ \A k \in 1..n : e.out.v[k].shape = Rep(N, k) \o Rep(c, k), "n_body_marginals: wrong shapes"),
             IF bads # {} THEN LET x == CHOOSE x \in bads : TRUE IN {"n_body_marginals of modes (1-based) " \o ToString(x)}
             ELSE IF off # {} THEN {"n_body_marginals: an order of the modes that is not an involution is permuted by the inverse"} ELSE {}))
    [] e.op = "tvd" ->
        LET s == St(e) N == Len(e.in.V) \div 2 c == e.in.cut
            t == TLCEval([j \in 1..N |-> ProbTable(s, <<j>>, c)])
            w == [k \in 1..c |-> Num(N) -- SumF([x \in (1..N) \X (1..k) |-> t[x[1]][x[2]]])]
        IN ArrayVNear(e, w, Tiny(9) ** Num(N), "tvd_cutoff_bounds")
    [] e.op = "classical" ->
        LET V == Nums(e.in.V) h == Num(e.in.hbar) N == NModes(V) a == Num(e.in.atol) IN
        Then(Scalar(e), LET k == ToInt(Num(e.out.v)) IN
          Req(k >= 0 /\ k <= N /\ (k = 0 \/ ClassV(LeadV(V, k), h, a) # "no") /\ (k = N \/ ClassV(LeadV(V, k + 1), h, a) # "yes"),
              "find_classical_subsystem returned " \o ToString(k)))
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
