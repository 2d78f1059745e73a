----------------------------- MODULE Trace_C06 -----------------------------
(* C06: permanents are permutation sums; Fock probabilities of interferometers. *)
EXTENDS TraceBase, Hafnians
ProdFact(n) == ProdF([i \in 1..Len(n) |-> FactQ(n[i])])
Compositions(N, M) == {s \in [1..M -> 0..N] : SumSeq(s, M) = N}
FockP(U, n, m) == Abs2(Perm(Sub2(U, RepIdx(m), RepIdx(n)))) // (ProdFact(n) ** ProdFact(m))
RowScale(A) == ProdF([i \in 1..Len(A) |-> SumF([j \in 1..Len(A) |-> Abs(A[i][j])])])
Judge(e) ==
  CASE e.op = "perm" ->
        LET A == Nums(e.in.A) IN
        ScalarNear(e, Perm(A), EpsOf(e.in.dt) ** (PermScale(A) ++ RowScale(A) ++ RowScale(MT(A))), "perm/" \o e.in.method \o " is not the permutation sum")
    [] e.op = "permanent_repeated" ->
        LET A == Nums(e.in.A)
            B == SubM(A, RepIdx(e.in.rpt)) IN
        ScalarNear(e, Perm(B), Tiny(7) ** (PermScale(B) ++ RowScale(B) ++ RowScale(MT(B)) ++ Tiny(3)), "permanent_repeated is not the permanent of the repeated matrix")
    [] e.op = "fock" ->
        LET U == Nums(e.in.U)
            n == e.in.n
            outs == e.in.outs
            p == Nums(e.out.v) IN
        Then(Array(e, <<Len(outs)>>),
          UNION {Near(p[i], FockP(U, n, outs[i]), Tiny(9), "fock_prob of output " \o ToString(outs[i])) : i \in 1..Len(outs)}
          \cup Req({outs[i] : i \in 1..Len(outs)} = Compositions(Total(n), Len(n)), "harness: outputs do not cover the layer")
          \cup (IF e.in.unitary THEN Near(SumF(p), One, Tiny(8), "fock_prob does not sum to one") ELSE {}))
    [] e.op = "fock_reject" -> Raised(e, {"ValueError"})
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
