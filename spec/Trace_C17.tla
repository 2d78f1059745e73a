----------------------------- MODULE Trace_C17 -----------------------------
(***************************************************************************)
(* C17: gate tensors hold the exact matrix elements of the gate, and the   *)
(* gradients their derivatives, for every index below the cutoff.          *)
(***************************************************************************)
EXTENDS TraceBase, FockGates
Cut(e) == [i \in 1..(2 * NM(e.in.g)) |-> e.in.cut]
FlatNear(got, want, cut, tol, name) ==
  LET badi == {i \in 1..Len(want) : ~Within(got[i], want[i], tol)}
  IN IF badi = {} THEN {} ELSE LET i == CHOOSE i \in badi : \A j \in badi : i <= j IN
     {name \o " at " \o ToString(Unravel(i - 1, cut)) \o ": code " \o Show(got[i]) \o " spec " \o Show(want[i])}
Judge(e) ==
  LET cut == Cut(e) sz == BoxSize(cut) a == Num(e.in.a) b == Num(e.in.b) tol == Num(e.in.tol) IN
  CASE e.op = "gate" ->
        Then(Returned(e), Then(Req(Nums(e.out.v[1].v) = [i \in 1..Len(cut) |-> Num(e.in.cut)], "wrong shape") \cup Req(Len(e.out.v[2].v) = sz, "wrong size"),
          FlatNear(Nums(e.out.v[2].v), GateTable(e.in.g, a, b, cut), cut, tol, e.in.g)))
    [] e.op = "grad" ->
        Then(Returned(e), Then(Req(\A k \in 1..2 : Nums(e.out.v[2 * k - 1].v) = [i \in 1..Len(cut) |-> Num(e.in.cut)] /\ Len(e.out.v[2 * k].v) = sz, "wrong shape"),
          UNION {FlatNear(Nums(e.out.v[2 * k].v), DGate(e.in.g, a, b, cut, k), cut, tol ** Num(e.in.cut * e.in.cut), "derivative of " \o e.in.g \o " in parameter " \o ToString(k)) : k \in 1..2}))
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
