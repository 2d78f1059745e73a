----------------------------- MODULE Trace_C08 -----------------------------
(***************************************************************************)
(* C08: Bristolians, and threshold statistics of Fock states.              *)
(* The probability that the photons of |n> arrive as m in the outputs of T *)
(* and the rest are lost is, with E = 1 - T^dag T the overlaps of the lost *)
(* amplitudes and in = the list of input modes (one entry per photon),     *)
(*   1/(n! m!) Sum_{S, S' of |m| photons} perm(T[m,S]) perm(T[m,S'])^*     *)
(*                                        perm(E[S'^c, S^c]).              *)
(***************************************************************************)
EXTENDS TraceBase, Gaussian
ProdFact(n) == ProdF([i \in 1..Len(n) |-> FactQ(n[i])])
SubM2(A, S) == SubV(A, SetSeq(S))   \* the rows in S
GramPlus(B, E) == Mat(Len(E), Len(E), LAMBDA i, j : SumF([k \in 1..Len(B) |-> Conj(B[k][i]) ** B[k][j]]) ++ E[i][j])
BrsTerms(A, E) == TLCEval([S \in SUBSET (1..Len(A)) |->
   Sgn(Len(A) - Cardinality(S)) ** Perm(GramPlus(SubM2(A, S), E))])
BrsScale(A, E) == SumF(TLCEval([S \in SUBSET (1..Len(A)) |-> PermScale(AbsMat(GramPlus(SubM2(AbsMat(A), S), AbsMat(E))))]))
(* number distributions over the clicked modes *)
Outs(d, k) == {m \in [1..Len(d) -> 0..k] : SumSeq(m, Len(d)) = k /\ \A i \in 1..Len(d) : (m[i] > 0) <=> (d[i] = 1)}
SubsetsOf(N, k) == {S \in SUBSET (1..N) : Cardinality(S) = k}
OutcomeP(T, E, n, m) ==
  LET in == RepIdx(n)
      N == Len(in)
      k == Total(m)
      rows == RepIdx(m)
      amp == TLCEval([S \in SubsetsOf(N, k) |-> Perm(Sub2(T, rows, SubV(in, SetSeq(S))))])
  IN SumF([p \in (SubsetsOf(N, k) \X SubsetsOf(N, k)) |->
             amp[p[1]] ** Conj(amp[p[2]]) ** Perm(Sub2(E, SubV(in, SetSeq((1..N) \ p[2])), SubV(in, SetSeq((1..N) \ p[1]))))])
     // (ProdFact(n) ** ProdFact(m))
PatternP(T, E, n, d) == SumF([k \in 0..Total(n) |-> SumF([m \in Outs(d, k) |-> OutcomeP(T, E, n, m)])])
Loss(T) == Mat(Cols(T), Cols(T), LAMBDA i, j : (IF i = j THEN One ELSE Zero) -- SumF([k \in 1..Len(T) |-> Conj(T[k][i]) ** T[k][j]]))
Judge(e) ==
  CASE e.op = "brs" ->
        LET A == Nums(e.in.A) E == Nums(e.in.E)
        IN ScalarNear(e, SumF(BrsTerms(A, E)), Tiny(9) ** (BrsScale(A, E) ++ One), "brs is not the inclusion-exclusion sum of permanents")
    [] e.op = "ubrs" ->
        LET A == Nums(e.in.A) n == e.in.n E == ZeroMat(n, n)
        IN ScalarNear(e, SumF(BrsTerms(A, E)), Tiny(9) ** (BrsScale(A, E) ++ One), "ubrs is not the inclusion-exclusion sum of permanents")
    [] e.op = "fock" ->
        LET T == Nums(e.in.T)
            E == Loss(T)
            n == e.in.n
            pat == e.in.patterns
            p == Nums(e.out.v)
        IN Then(Array(e, <<Len(pat)>>),
             UNION {Near(p[i], PatternP(T, E, n, pat[i]), Tiny(7), "fock_threshold_prob of " \o ToString(pat[i])) : i \in 1..Len(pat)}
             \cup Near(SumF(p), One, Tiny(7), "threshold probabilities do not sum to one")
             \cup Req(\A i \in 1..Len(pat) : Leq(Neg(Tiny(8)), Re(p[i])), "negative threshold probability"))
    [] e.op = "reject" -> Raised(e, {"ValueError"})
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
