----------------------------- MODULE Trace_C05 -----------------------------
(* C05: entry k of a batch is the loop hafnian with the last mode repeated k times. *)
EXTENDS TraceBase, Hafnians
AbsV(v) == Vec(Len(v), LAMBDA i : Abs(v[i]))
Want(A, D, fix, K) == Vec(K + 1, LAMBDA k : RepHaf(A, D, fix \o <<k - 1>>))
Check(got, A, D, fix, K, name) ==
  LET want == Want(A, D, fix, K)
      m == Max2(MaxAbs(A), MaxAbs(D) ** MaxAbs(D))
      scale == MaxAbs(Want(AbsMat(A), AbsV(D), fix, K)) ++ (DoubleFact(Total(fix) + K) ** Pow(m ++ Tiny(3), (Total(fix) + K) \div 2) ** Max2(One, MaxAbs(D)) ** Tiny(3))
  IN VNear(got, want, Tiny(8) ** scale, name)
Judge(e) ==
  LET A == Nums(e.in.A)
      D == Nums(e.in.D)
      fix == e.in.fix
      K == e.in.K
  IN IF e.op = "batch" THEN Then(Array(e, <<K + 1>>), Check(Nums(e.out.v), A, D, fix, K, "loop_hafnian_batch"))
     ELSE Then(Array(e, <<Len(D), K + 1>>),
               UNION {Check(Nums(e.out.v[b]), A, D[b], fix, K, "loop_hafnian_batch_gamma row " \o ToString(b - 1)) : b \in 1..Len(D)})
TraceNext == TraceStep(Judge)
=============================================================================
