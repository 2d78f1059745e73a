----------------------------- MODULE Trace_C10 -----------------------------
(* C10: characteristic polynomials as sums of principal minors; traces of powers. *)
EXTENDS TraceBase, Gaussian
Minors(A, k) == LET n == Len(A) IN
  Sgn(k) ** SumF(TLCEval([S \in {S \in SUBSET (1..n) : Cardinality(S) = k} |-> Det(SubM(A, SetSeq(S)))]))
Binom(n, k) == FactQ(n) // (FactQ(k) ** FactQ(n - k))
Frob(A) == Sqrt(SumF([p \in (1..Len(A)) \X (1..Len(A)) |-> Abs2(A[p[1]][p[2]])]))
RECURSIVE Powers(_, _)
(* A^0 .. A^(k-1) *)
Powers(A, k) == IF k = 0 THEN <<>>
                ELSE IF k = 1 THEN <<Ident(Len(A))>>
                ELSE LET p == Powers(A, k - 1) IN Append(p, MMul(p[k - 1], A))
EpsU(dt) == IF dt \in {"f32", "c64"} THEN Tiny(4) ELSE Tiny(10)
Judge(e) ==
  CASE e.op = "charpoly" ->
        LET A == Nums(e.in.A) n == Len(A) F == Two ** Frob(A)
            c == Nums(e.out.v)
        IN Then(Array(e, <<n>>), UNION {Near(c[k], Minors(A, k), (EpsU(e.in.dt) ** Binom(n, k) ** Pow(F, k)) ++ Tiny(30),
                                          "charpoly coefficient " \o ToString(k)) : k \in 1..n})
    [] e.op = "powertrace" ->
        LET A == Nums(e.in.A) n == Len(A) k == e.in.k F == Num(3) ** Frob(A)
            t == Nums(e.out.v)
            P == Powers(A, k)
        IN Then(Array(e, <<k>>), UNION {Near(t[j], Trace(P[j]), (EpsU(e.in.dt) ** Pow(Two, n) ** Num(n) ** Pow(F, j - 1)) ++ Tiny(30),
                                          "powertrace of power " \o ToString(j - 1)) : j \in 1..k})
    [] e.op = "argument" -> Then(Returned(e), Req(e.in.A = e.out.v, "the argument of " \o e.in.fn \o " was modified"))
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
