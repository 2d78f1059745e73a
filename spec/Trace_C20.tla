----------------------------- MODULE Trace_C20 -----------------------------
(***************************************************************************)
(* C20: recorded runs of the sample drivers are behaviours of the          *)
(* accept/reject machine of SampleLoop.tla.                                *)
(***************************************************************************)
EXTENDS TraceBase, SampleLoop, SequencesExt
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
(* modes are drawn in an order p: the k-th drawn mode is column p[k] *)
Column(d, p) == [j \in 1..Len(p) |-> d[CHOOSE k \in 1..Len(p) : p[k] = j]]
Relabel(acc, p) == [k \in 1..Len(acc) |-> Column(acc[k], p)]
Counts(e, N, n) == Then(Array(e, <<N, n>>), Req(e.out.kind \in {"i", "u"}, "counts are not integers"))
Bag(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Bag(a, a[i]) = Bag(b, a[i])
(* limits and the structure of the state: dark modes stay empty, paired modes agree *)
Limits(e, lo, cut, maxp) ==
  Req(\A i \in 1..Len(lo) : \A j \in 1..Len(lo[i]) : lo[i][j] >= 0, "negative count")
  \cup Req(cut < 0 \/ \A i \in 1..Len(lo) : \A j \in 1..Len(lo[i]) : lo[i][j] < cut, "a returned count is not below the cutoff")
  \cup Req(maxp < 0 \/ \A i \in 1..Len(lo) : Total(lo[i]) <= maxp, "a returned total is above the maximum")
  \cup Req(\A i \in 1..Len(lo) : \A j \in 1..Len(e.in.dark) : lo[i][e.in.dark[j] + 1] = 0, "a photon in an empty mode")
  \cup Req(\A i \in 1..Len(lo) : \A j \in 1..Len(e.in.pairs) : lo[i][e.in.pairs[j][1] + 1] = lo[i][e.in.pairs[j][2] + 1], "twin modes with different counts")
  \cup Req(~e.in.even \/ \A i \in 1..Len(lo) : Total(lo[i]) % 2 = 0, "odd total from a squeezed vacuum")
  \cup Req(\A i \in 1..Len(lo) : \A j \in 1..Len(e.in.bright) : LET b == e.in.bright[j] IN lo[i][b[1] + 1] >= b[2] /\ lo[i][b[1] + 1] <= b[3], "count far from the intensity of its mode")
Judge(e) ==
  CASE e.op = "script" ->
        Then(Counts(e, e.in.N, e.in.n),
          Req(\E early \in BOOLEAN : LET w == Run(Fresh, e.in.drawn, e.in.n, e.in.f, e.in.cut, e.in.maxp, early) IN
                w.buf = <<>> /\ w.ch = 1 /\ \E p \in Perms(e.in.n) : Relabel(w.acc, p) = e.out.v,
              "the returned samples are not the accepted ones of the drawn patterns"))
    [] e.op = "threads" ->
        Then(Counts(e, e.in.N, e.in.n),
          Req(\E early \in BOOLEAN :
                LET w == [t \in 1..Len(e.in.drawn) |-> Run(Fresh, e.in.drawn[t], e.in.n, e.in.f, e.in.cut, e.in.maxp, early)] IN
                (\A t \in 1..Len(w) : w[t].buf = <<>> /\ w[t].ch = 1)
                /\ \E p \in Perms(e.in.n) : SameBag(FoldLeft(LAMBDA a, b : a \o b, <<>>, [t \in 1..Len(w) |-> Relabel(w[t].acc, p)]), e.out.v),
              "the returned samples are not the accepted ones of the drawn patterns"))
    [] e.op = "plain" -> Then(Counts(e, e.in.N, e.in.n), Limits(e, e.out.v, e.in.cut, e.in.maxp))
    [] e.op = "single" ->
        Then(Returned(e), IF e.out.shape = <<>> THEN Req(e.out.v = -1, "a rejected draw is not -1")
          ELSE Then(Array(e, <<e.in.n>>), Then(Req(e.out.kind \in {"i", "u"}, "counts are not integers"), Limits(e, <<e.out.v>>, e.in.cut, e.in.maxp))))
    [] e.op = "repeat" -> Then(Returned(e), UNION {Req(e.out.v[i].shape = e.out.v[1].shape /\ e.out.v[i].v = e.out.v[1].v, "same seed, different samples") : i \in 2..Len(e.out.v)})
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
