----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation: the recorded calls of the implementation are the      *)
(* events of the trace; each event is consumed by one step, which          *)
(* evaluates the specification's verdict on it.  Verdicts are total: every *)
(* event is judged, and a rejected one names its failing clauses.          *)
(* Calls are independent (the library is specified as stateless; histories *)
(* are events of their own), so the trace is walked by parallel chains.    *)
(***************************************************************************)
EXTENDS ExactMat, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.WALRUS_TRACE)
NChains == IF Len(Events) < 64 THEN Len(Events) ELSE 64

VARIABLES chain, pos, bad

TraceInit == chain = 0 /\ pos = 0 /\ bad = {}
TraceView == <<chain, pos>>

Idx(c, p) == c + (p - 1) * NChains

(* Equal to v.  Overridden in Java (Guard): when v cannot be evaluated because
   the recorded result has no meaning for the specification (a string where a
   number belongs, a missing component ...), the event is rejected. *)
Judged(v) == v

(* J(e): the set of names of the clauses of the specification e fails *)
TraceStep(J(_)) ==
  \/ chain = 0 /\ chain' \in 1..NChains /\ pos' = 0 /\ bad' = {}
  \/ /\ chain > 0
     /\ Idx(chain, pos + 1) <= Len(Events)
     /\ chain' = chain /\ pos' = pos + 1
     /\ LET e == Events[Idx(chain, pos + 1)] IN
        /\ bad' = Judged(J(e))
        /\ IF bad' = {} THEN TRUE ELSE PrintT(<<"REJECT", e.id, bad'>>)

(* verdict helpers *)
Req(c, name) == IF c THEN {} ELSE {name}
(* a clause guarded by well-formedness of the output: b only evaluated if a = {} *)
Then(a, b) == IF a = {} THEN b ELSE a
Near(got, want, tol, name) ==
  IF Within(got, want, tol) THEN {}
  ELSE {name \o ": code " \o Show(got) \o " spec " \o Show(want) \o " tol " \o Show(tol)}
Returned(e) == IF e.out.st = "ok" THEN {} ELSE {"raised " \o e.out.kind \o ": " \o e.out.v}
Raised(e, kinds) == IF e.out.st = "exc" /\ e.out.kind \in kinds THEN {}
                    ELSE IF e.out.st = "exc" THEN {"raised " \o e.out.kind \o " instead: " \o e.out.v}
                    ELSE {"accepted an invalid input"}
Shape(e, s) == IF e.out.shape = s THEN {} ELSE {"output shape " \o ToString(e.out.shape) \o " expected " \o ToString(s)}
Scalar(e) == Then(Returned(e), Shape(e, <<>>))
Array(e, s) == Then(Returned(e), Shape(e, s))
ScalarNear(e, want, tol, name) == Then(Scalar(e), Near(Num(e.out.v), want, tol, name))
(* first differing entry of a vector / matrix result *)
VNear(got, want, tol, name) ==
  LET badi == {i \in 1..Len(want) : ~Within(got[i], want[i], tol)}
  IN IF badi = {} THEN {}
     ELSE LET i == CHOOSE i \in badi : \A j \in badi : i <= j
          IN {name \o " at [" \o ToString(i - 1) \o "]: code " \o Show(got[i]) \o " spec " \o Show(want[i]) \o " tol " \o Show(tol)}
MNear(got, want, tol, name) ==
  LET badi == {i \in 1..Len(want) : \E j \in 1..Len(want[i]) : ~Within(got[i][j], want[i][j], tol)}
  IN IF badi = {} THEN {}
     ELSE LET i == CHOOSE i \in badi : \A k \in badi : i <= k
              j == CHOOSE j \in 1..Len(want[i]) : ~Within(got[i][j], want[i][j], tol)
          IN {name \o " at [" \o ToString(i - 1) \o "," \o ToString(j - 1) \o "]: code " \o Show(got[i][j]) \o " spec " \o Show(want[i][j]) \o " tol " \o Show(tol)}
ArrayVNear(e, want, tol, name) == Then(Array(e, <<Len(want)>>), VNear(Nums(e.out.v), want, tol, name))
ArrayMNear(e, want, tol, name) == Then(Array(e, <<Len(want), Cols(want)>>), MNear(Nums(e.out.v), want, tol, name))
Has(r, f) == f \in DOMAIN r
=============================================================================
