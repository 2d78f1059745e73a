----------------------------- MODULE Trace_C23 -----------------------------
(***************************************************************************)
(* C23: a call is rejected exactly when it violates a clause of the        *)
(* contract of the operation (Domain.tla).                                 *)
(***************************************************************************)
EXTENDS TraceBase, Domain
RECURSIVE Names(_)
Names(s) == IF s = <<>> THEN "" ELSE Head(s)[1] \o (IF Len(s) = 1 THEN "" ELSE ", " \o Names(Tail(s)))
Verdict(e) ==
  LET c == Contract(e)
      no == SelectSeq(c, LAMBDA x : x[2] = "no")
      unsure == \E i \in 1..Len(c) : c[i][2] = "?"
      kinds == UNION {no[i][3] : i \in 1..Len(no)}
  IN IF no # <<>> THEN
       IF e.out.st = "exc" /\ e.out.kind \in kinds THEN {}
       ELSE IF e.out.st = "exc" THEN {"rejected (" \o Names(no) \o ") with " \o e.out.kind \o ": " \o e.out.v}
       ELSE {"accepted although: " \o Names(no)}
     ELSE IF unsure THEN {}
     ELSE IF e.out.st = "ok" THEN {} ELSE {"valid call rejected with " \o e.out.kind \o ": " \o e.out.v}
(* a NaN may not turn into a number, where it is not rejected *)
Judge(e) ==
  IF e.op = "nan" THEN IF e.out.st = "exc" \/ e.out.v THEN {} ELSE {"a NaN argument became a number"}
  ELSE Verdict(e)
TraceNext == TraceStep(Judge)
=============================================================================
