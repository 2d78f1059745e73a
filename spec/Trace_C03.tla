----------------------------- MODULE Trace_C03 -----------------------------
(* C03: structured hafnian algorithms compute the matching sum. *)
EXTENDS TraceBase, Hafnians
NonZero(x) == ~Eq(x, Zero)
Bandwidth(A) == LET S == {0} \cup {j - i : <<i, j>> \in {p \in (1..Len(A)) \X (1..Len(A)) : p[1] < p[2] /\ NonZero(A[p[1]][p[2]])}}
                IN CHOOSE w \in S : \A v \in S : v <= w
Judge(e) ==
  CASE e.op = "bandwidth" ->
         LET A == Nums(e.in.A) IN Then(Scalar(e), Req(Eq(Num(e.out.v), Num(Bandwidth(A))), "bandwidth"))
    [] e.op = "lowrank" ->
         LET G == Nums(e.in.A)
             A == IF Len(G) = 0 THEN <<>> ELSE MMul(G, MT(G))
             abs == IF Len(G) = 0 THEN <<>> ELSE MMul(AbsMat(G), MT(AbsMat(G)))
         IN ScalarNear(e, Haf(A), Tiny(8) ** (HafScale(abs, FALSE)), "low_rank_hafnian is not the hafnian of G G^T")
    [] OTHER ->
         LET A0 == Nums(e.in.A)
             A == IF e.in.hassub THEN SubM(A0, [i \in 1..Len(e.in.sub) |-> e.in.sub[i] + 1]) ELSE A0
         IN ScalarNear(e, HafL(A, e.in.loop), Tiny(8) ** HafScale(A, e.in.loop), e.op \o " hafnian is not the matching sum")
TraceNext == TraceStep(Judge)
=============================================================================
