----------------------------- MODULE SampleLoop -----------------------------
(***************************************************************************)
(* The accept/reject machine of the sample drivers.  A worker draws the    *)
(* modes of one pattern after the other (through f channels per mode when  *)
(* f > 0: threshold detection, the first channel with a photon clicks and  *)
(* ends the mode).  A pattern over a limit is dropped and drawn again.     *)
(* State of a worker: buf (counts/clicks of the modes drawn so far),       *)
(* ch (channel of the current mode), acc (accepted patterns).              *)
(* Consume is the transition on one drawn outcome; it is shared by the     *)
(* design model (MC_SampleLoop) and by the trace check (Trace_C20), where  *)
(* the outcomes are those drawn by the real code.                          *)
(* early: whether the worker abandons a pattern as soon as it is bound to  *)
(* be rejected (both are correct; they consume different numbers of draws) *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Total(_)
Total(d) == IF d = <<>> THEN 0 ELSE Head(d) + Total(Tail(d))
(* limits: photon counts stay below the cutoff and the total at most maxp *)
Over(d, f, cut, maxp) == Total(d) > maxp \/ (f = 0 /\ \E i \in 1..Len(d) : d[i] >= cut)
Fresh == [buf |-> <<>>, ch |-> 1, acc |-> <<>>]
Finish(w, n, f, cut, maxp, early) ==
  IF Over(w.buf, f, cut, maxp) /\ (early \/ Len(w.buf) = n) THEN [w EXCEPT !.buf = <<>>, !.ch = 1]
  ELSE IF Len(w.buf) = n THEN [w EXCEPT !.buf = <<>>, !.ch = 1, !.acc = Append(w.acc, w.buf)]
  ELSE [w EXCEPT !.ch = 1]
Consume(w, o, n, f, cut, maxp, early) ==
  IF f = 0 THEN Finish([w EXCEPT !.buf = Append(w.buf, o)], n, f, cut, maxp, early)
  ELSE IF o = 0 /\ w.ch < f THEN [w EXCEPT !.ch = w.ch + 1]
  ELSE Finish([w EXCEPT !.buf = Append(w.buf, IF o > 0 THEN 1 ELSE 0)], n, f, cut, maxp, early)
RECURSIVE Run(_, _, _, _, _, _, _)
Run(w, outs, n, f, cut, maxp, early) ==
  IF outs = <<>> THEN w ELSE Run(Consume(w, Head(outs), n, f, cut, maxp, early), Tail(outs), n, f, cut, maxp, early)
=============================================================================
