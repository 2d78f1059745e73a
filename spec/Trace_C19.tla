----------------------------- MODULE Trace_C19 -----------------------------
(***************************************************************************)
(* C19: recorded sampler runs are behaviours of the machines in            *)
(* Samplers.tla, and the law of a sample, averaged over the internal       *)
(* Gaussian variates, is the law of the state.                             *)
(***************************************************************************)
EXTENDS TraceBase, Samplers
K(e) == PureKernel(Nums(e.in.mu), Nums(e.in.V), Num(e.in.hbar))
P(e, t) == Nums(e.out.v[t].v)
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
(* the drawing order is not observed: the orders consistent with the returned sample *)
OrdersH(e) == {p \in Perms(Len(e.in.sample)) : \A t \in 1..Len(p) : e.in.sample[p[t]] = e.in.path[t]}
OrdersT(e) == LET c == Cfgs(1, 1, e.in.path, e.in.f) IN
  {p \in Perms(Len(e.in.sample)) : \A k \in 1..Len(p) : (e.in.sample[p[k]] = 1) <=> \E t \in 1..Len(c) : c[t][1] = k /\ e.in.path[t] > 0}
(* some order explains every draw; otherwise the complaint of one that explains the most *)
RECURSIVE FirstBad(_, _, _, _)
FirstBad(e, Want(_, _), o, t) ==
  IF t > Len(e.in.path) THEN <<t, {}>>
  ELSE LET v == VNear(P(e, t), Want(o, t), Tiny(7), "conditional probabilities of draw " \o ToString(t))
       IN IF v = {} THEN FirstBad(e, Want, o, t + 1) ELSE <<t, v>>
Explained(e, orders, Want(_, _)) ==
  IF orders = {} THEN {"the returned sample is not the drawn outcomes in any order"}
  ELSE LET r == TLCEval([o \in orders |-> FirstBad(e, Want, o, 1)])
           best == CHOOSE o \in orders : \A q \in orders : r[q][1] <= r[o][1]
       IN r[best][2]
Sizes(e, n) == Req(Len(e.out.v) = n /\ \A t \in 1..n : e.out.v[t].shape = <<e.in.cut + 1>>, "a step offers the wrong set of outcomes")
SetOf(d) == {i \in 1..Len(d) : d[i] = 1}
(* statistical allowance: standard error of the average, or of a direct count *)
Stat(e, p, i) == IF e.in.draws > 0 THEN (Num(8) ** Sqrt(p // Num(e.in.draws))) ++ Frac(60, e.in.draws)
                 ELSE (Num(9) ** Num(e.in.se[i])) ++ Frac(2, 10000)
Judge(e) ==
  CASE e.op = "steps_h" ->
        Then(Returned(e), Then(Sizes(e, Len(e.in.V) \div 2),
          LET k == K(e) IN Explained(e, OrdersH(e), LAMBDA o, t : StepProbsH(k, o, e.in.path, t, e.in.cut))))
    [] e.op = "steps_t" ->
        Then(Returned(e), Then(Sizes(e, Len(e.in.path))
             \cup Req(LET n == Len(e.in.path) c == Cfgs(1, 1, e.in.path, e.in.f) IN n > 0 /\ c[n][1] = Len(e.in.sample) /\ (e.in.path[n] > 0 \/ c[n][2] = e.in.f), "the number of draws is not that of the fan-out"),
          LET k == K(e) IN Explained(e, OrdersT(e), LAMBDA o, t : StepProbsT(k, o, e.in.path, t, e.in.f, e.in.cut))))
    [] e.op = "prefix" ->
        Then(Returned(e), LET n == Len(e.out.v) \div 2 IN
          UNION {LET a == P(e, t) b == P(e, n + t) IN
                 Then(Req(Len(a) = e.in.cut + 1 /\ Len(b) = e.in.big + 1, "a step offers the wrong set of outcomes"),
                   VNear(a, Normalise(SubSeq(b, 1, e.in.cut + 1)), Tiny(8), "draw " \o ToString(t) \o " at a smaller cutoff")) : t \in 1..n})
    [] e.op = "law_h" ->
        LET mu == Nums(e.in.mu) V == Nums(e.in.V) h == Num(e.in.hbar) N == NModes(V) c == e.in.cut cuts == [i \in 1..N |-> c]
            A == KernelA(V, h) g == KernelG(mu, V, h) v == VacProb(mu, V, h) tail == TailBound(mu, V, h, c) IN
        Then(Array(e, <<BoxSize(cuts)>>),
          UNION {LET n == Unravel(i - 1, cuts) p == ElementOf(A, g, v, n, n) IN
                 Near(Num(e.out.v[i]), p, tail ++ Stat(e, p, i), "probability of the sample " \o ToString(n)) : i \in 1..BoxSize(cuts)})
    [] e.op = "law_t" ->
        LET mu == Nums(e.in.mu) V == Nums(e.in.V) h == Num(e.in.hbar) N == NModes(V) cuts == [i \in 1..N |-> 2]
            cl == Clicks(mu, V, h) tail == FanTail(mu, V, h, e.in.f, e.in.cut) IN
        Then(Array(e, <<BoxSize(cuts)>>),
          UNION {LET d == Unravel(i - 1, cuts) p == cl[SetOf(d)] IN
                 Near(Num(e.out.v[i]), p, tail ++ Stat(e, p, i), "probability of the clicks " \o ToString(d)) : i \in 1..BoxSize(cuts)})
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
