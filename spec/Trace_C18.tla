----------------------------- MODULE Trace_C18 -----------------------------
(***************************************************************************)
(* C18: fock_tensor is the Fock matrix of the Gaussian unitary, up to one  *)
(* phase common to all its elements.                                       *)
(***************************************************************************)
EXTENDS TraceBase, GaussUnitary
(* position in the returned tensor of the index (out.., in..) *)
Place(x, n, sf) == IF sf THEN [k \in 1..(2 * n) |-> IF k % 2 = 1 THEN x[(k + 1) \div 2] ELSE x[n + k \div 2]] ELSE x
Judge(e) ==
  CASE e.op = "tensor" ->
        LET S == Nums(e.in.S) n == NModes(S) c == e.in.cut cut == [i \in 1..(2 * n) |-> c] sz == BoxSize(cut) IN
        Then(Returned(e), Then(Req(Nums(e.out.v[1].v) = [i \in 1..(2 * n) |-> Num(c)], "wrong shape") \cup Req(Len(e.out.v[2].v) = sz, "wrong size"),
          LET w == TLCEval(UTable(S, Nums(e.in.alpha), cut))
              raw == Nums(e.out.v[2].v)
              g == TLCEval([i \in 1..sz |-> raw[Ravel(Place(Unravel(i - 1, cut), n, e.in.sf), cut) + 1]])
              big == CHOOSE i \in 1..sz : \A j \in 1..sz : Leq(Abs2(w[j]), Abs2(w[i]))
              p == g[big] // w[big]
              tol == Num(e.in.tol)
              badi == {i \in 1..sz : ~Within(g[i], p ** w[i], tol)}
          IN Near(Abs2(p), One, tol // Abs2(w[big]), "modulus of the largest element relative to the exact one")
             \cup (IF badi = {} THEN {} ELSE LET i == CHOOSE i \in badi : \A j \in badi : i <= j IN
                   {"<m|U|n> at (out, in) " \o ToString(Unravel(i - 1, cut)) \o ": code " \o Show(g[i]) \o " spec " \o Show(p ** w[i])})
             \cup (LET bc == {i \in 1..sz : e.in.passive /\ LET x == Unravel(i - 1, cut) IN Total(SubSeq(x, 1, n)) # Total(SubSeq(x, n + 1, 2 * n)) /\ ~Within(g[i], Zero, tol)}
                   IN Req(bc = {}, "a passive unitary changes the photon number"))))
    [] e.op = "reject" -> Raised(e, {"ValueError"})
    [] e.op = "accept" -> Returned(e)
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
