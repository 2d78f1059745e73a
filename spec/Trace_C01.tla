----------------------------- MODULE Trace_C01 -----------------------------
(* C01: every exact method returns the sum over perfect matchings. *)
EXTENDS TraceBase, Hafnians
Judge(e) ==
  LET A == Nums(e.in.A)
      n == Len(A)
      want == IF e.in.loop THEN LHaf(A) ELSE Haf(A)
      tol == EpsOf(e.in.dt) ** HafScale(A, e.in.loop)
  IN ScalarNear(e, want, tol, e.op \o "/" \o e.in.method \o " is not the matching sum")
TraceNext == TraceStep(Judge)
=============================================================================
