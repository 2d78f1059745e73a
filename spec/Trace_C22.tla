----------------------------- MODULE Trace_C22 -----------------------------
(***************************************************************************)
(* C22: results depend only on the arguments.                              *)
(***************************************************************************)
EXTENDS TraceBase, Matchings
MaxA(v) == LET RECURSIVE m(_, _) m(i, a) == IF i = 0 THEN a ELSE m(i - 1, IF IsNum(v[i]) /\ Leq(a, Abs(v[i])) THEN Abs(v[i]) ELSE a) IN m(Len(v), Zero)
Flat1(o) == IF o.shape = <<>> THEN <<o.v>> ELSE o.v
CloseNums(a, b) ==
  LET x == Flat1(a) y == Flat1(b) u == Nums(x) w == Nums(y) t == (Tiny(9) ** MaxA(w)) ++ Tiny(13) IN
  Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i] = y[i] \/ Within(u[i], w[i], t)
RECURSIVE SameOut(_, _)
SameOut(a, b) ==
  /\ a.st = b.st /\ a.kind = b.kind /\ a.shape = b.shape
  /\ CASE a.st # "ok" -> TRUE
       [] a.kind = "tuple" -> \A i \in 1..Len(a.v) : SameOut(a.v[i], b.v[i])
       [] a.kind \in {"f", "c"} -> a.v = b.v \/ CloseNums(a, b)
       [] OTHER -> a.v = b.v
ShowOut(o) == IF o.st = "ok" THEN o.kind \o ToString(o.shape) ELSE o.st \o " " \o o.kind
(* sets enumerated by the generators *)
Item0(fn, it) == IF fn \in {"spm", "rspm"} THEN Canon(it) ELSE Canon(it)
(* restricted matchings of 0..2m-1: in each item the blocks form, with the blocks {i, i+m},
   one cycle (pairs) or one path (with two singles) through all labels *)
Partner(n, i) == IF i < n \div 2 THEN i + n \div 2 ELSE i - n \div 2
Joined(c, n, R) == R \cup {Partner(n, i) : i \in R} \cup {j \in 0..(n - 1) : \E b \in c : j \in b /\ b \cap R # {}}
RECURSIVE Reach(_, _, _)
Reach(c, n, R) == LET S == Joined(c, n, R) IN IF S = R THEN R ELSE Reach(c, n, S)
OneCircuit(c, n) == Reach(c, n, {0}) = 0..(n - 1)
Labels(n) == 0..(n - 1)
AllOf(fn, n) ==
  CASE fn \in {"spm", "part"} -> BlocksOf(Labels(n), TRUE, TRUE)
    [] fn \in {"pmp", "pairs"} -> BlocksOf(Labels(n), FALSE, TRUE)
    [] fn = "singles" -> BlocksOf(Labels(n), TRUE, FALSE)
    [] fn = "nothing" -> {}
    [] fn = "rpmp" -> {c \in BlocksOf(Labels(n), FALSE, TRUE) : OneCircuit(c, n)}
    [] fn = "rspm" -> {c \in BlocksOf(Labels(n), TRUE, TRUE) : OneCircuit(c, n) /\ Cardinality({b \in c : Cardinality(b) = 1}) \in {0, 2}}
MemoSets == [k \in {"spm", "part", "pmp", "pairs", "singles", "nothing", "rpmp", "rspm"} |-> [n \in 3..7 |-> IF n % 2 = 1 /\ k \in {"rpmp", "rspm"} THEN {} ELSE AllOf(k, n)]]
Want(fn, n) == IF n \in 3..7 THEN MemoSets[fn][n] ELSE AllOf(fn, n)
CoversOnce(it, n) == \A x \in Labels(n) : Cardinality({i \in 1..Len(it) : x \in BlockSet(it[i])}) = 1
Items(v, fn, n) == LET W == Want(fn, n) IN
  Req(\A i \in 1..Len(v) : Canon(v[i]) \in W /\ CoversOnce(v[i], n), "an item is not a matching of the set")
  \cup Req(Cardinality({Canon(v[i]) : i \in 1..Len(v)}) = Len(v), "a matching comes twice")
Complete(v, fn, n) == Req(Cardinality({Canon(v[i]) : i \in 1..Len(v)}) = Cardinality(Want(fn, n)), "matchings are missing")
Map(it, lab) == [i \in 1..Len(it) |-> [j \in 1..Len(it[i]) |-> lab[it[i][j] + 1]]]
RECURSIVE TelePair(_)
TelePair(n) == IF n = 0 THEN <<Zero, One>> ELSE LET p == TelePair(n - 1) IN <<p[2], p[2] ++ (Num(n - 1) ** p[1])>>
Tele(n) == TelePair(n)[2]
MemoVal(k, gen) == IF gen = 1 THEN <<10 * k, 10 * k + 1, 10 * k + 2>> ELSE <<k>>
Range(n) == [i \in 1..n |-> i - 1]
Judge(e) ==
  CASE e.out.st # "ok" -> Returned(e)
    [] e.op \in {"hist", "layout", "threads", "workers", "cross", "alias"} ->
        UNION {Req(SameOut(e.out.v[i], e.out.want[i]), "result of another call of the history differs: call " \o ToString(i) \o " gave " \o ShowOut(e.out.v[i]) \o " instead of " \o ShowOut(e.out.want[i])) : i \in 1..Len(e.out.want)}
        \cup UNION {LET c == e.out.clean[i] IN Req(c[1], "arguments were changed") \cup Req(c[2], "global state was changed") \cup Req(c[3], "the state of the random numbers was changed") : i \in 1..Len(e.out.clean)}
    [] e.op = "cons" ->
        LET fn == e.in.fn n == e.in.n v == e.out.v IN
        UNION {Items(v[i][1], fn, n) : i \in 1..Len(v)}
        \cup UNION {IF v[i][2] THEN Complete(v[i][1], fn, n) ELSE {} : i \in 1..Len(v)}
        \cup Req(\A i, j \in 1..Len(v) : Len(v[i][1]) <= Len(v[j][1]) => IsPrefix2(v[i][1], v[j][1]), "two consumers see different orders")
    [] e.op = "labels" ->
        LET a == e.out.v[1] b == e.out.v[2] IN
        Items(a, e.in.fn, e.in.n) \cup Complete(a, e.in.fn, e.in.n)
        \cup Req(b = [i \in 1..Len(a) |-> Map(a[i], e.in.lab)], "matchings of labels are not those of positions")
    [] e.op = "many" ->
        Req(e.out.err = <<>>, "a thread failed")
        \cup UNION {Items(e.out.v[i], e.in.fn, e.in.n) \cup Complete(e.out.v[i], e.in.fn, e.in.n) : i \in 1..Len(e.out.v)}
    [] e.op = "T" -> Then(Scalar(e), Near(Num(e.out.v), Tele(e.in.n), Zero, "telephone number"))
    [] e.op = "memo" ->
        UNION {LET s == e.out.v[i] IN
               Req(s[2] = MemoVal(s[1], e.in.gen) /\ s[3] = s[2], "memoised value differs")
               \cup Req(s[4] = MemoVal(s[1] + 1, e.in.gen), "memoised value with a keyword differs")
               \cup Req(s[5] = 0, "a call just made is computed again")
               \cup Req(s[6] <= e.in.limit * (IF e.in.gen = 1 THEN 3 ELSE 1), "more entries than the limit are kept") : i \in 1..Len(e.out.v)}
    [] e.op = "fault" ->
        LET n == e.in.n v == e.out.v full == Range(n) IN
        Req(IsPrefix2(v[1], full) /\ (Len(v[1]) <= e.in.at \/ e.in.first <= e.in.at), "items of the first consumer")
        \cup Req(e.out.raised \in {"none", e.in.kind}, "other exception")
        \cup Req(v[2] = full \/ (e.out.raised = "none" /\ IsPrefix2(SubSeq(v[2], 1, Len(v[2]) - 1), full) /\ Len(v[2]) = e.in.at + 1 /\ v[2][Len(v[2])] = -1), "a consumer after an exception misses items")
        \cup Req(v[3] = full, "a later consumer misses items")
    [] OTHER -> {"unknown event"}
TraceNext == TraceStep(Judge)
=============================================================================
