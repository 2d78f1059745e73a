--------------------------- MODULE MC_SampleLoop ---------------------------
(***************************************************************************)
(* Design model of the sample drivers: W workers, worker w owes Quota[w]   *)
(* patterns (serial: one worker owing all; parallel: one each), outcomes   *)
(* chosen by the environment.                                              *)
(* Safety: no worker returns more than it owes, only patterns within the   *)
(* limits are accepted, nothing is drawn after the quota is met, and when  *)
(* all are done exactly the requested number has been returned.            *)
(* Liveness: if every outcome keeps being possible, all workers finish.    *)
(***************************************************************************)
EXTENDS SampleLoop, TLC
CONSTANTS NModes, F, Cut, MaxP, W, N, Early
VARIABLES ws, drawn
vars == <<ws, drawn>>
Outcomes == 0..Cut
(* the parallel split: one pattern per task *)
Quota == IF W = 1 THEN [w \in {1} |-> N] ELSE [w \in 1..W |-> 1]
Done(w) == Len(ws[w].acc) = Quota[w]
Init == ws = [w \in 1..W |-> Fresh] /\ drawn = [w \in 1..W |-> <<>>]
DrawOne(w, o) == /\ ~Done(w)
                 /\ ws' = [ws EXCEPT ![w] = Consume(ws[w], o, NModes, F, Cut, MaxP, Early)]
                 /\ drawn' = [drawn EXCEPT ![w] = IF ws'[w].buf = <<>> /\ ws'[w].ch = 1 THEN <<>> ELSE Append(@, o)]
Next == \E w \in 1..W : \E o \in Outcomes : DrawOne(w, o)
Spec == Init /\ [][Next]_vars
(* every outcome that stays possible after a given beginning of a pattern occurs eventually *)
Bufs == UNION {[1..k -> Outcomes] : k \in 0..(NModes - 1)}
DrawAfter(w, b, c, o) == ws[w].buf = b /\ ws[w].ch = c /\ DrawOne(w, o)
FairSpec == Spec /\ \A w \in 1..W : \A b \in Bufs : \A c \in 1..(IF F = 0 THEN 1 ELSE F) : SF_vars(DrawAfter(w, b, c, 0))
Within(d) == Len(d) = NModes /\ ~Over(d, F, Cut, MaxP)
                 /\ \A i \in 1..NModes : d[i] >= 0 /\ (F > 0 => d[i] <= 1)
Safe == \A w \in 1..W : /\ Len(ws[w].acc) <= Quota[w]
                        /\ \A k \in 1..Len(ws[w].acc) : Within(ws[w].acc[k])
                        /\ Len(ws[w].buf) < NModes /\ ws[w].ch \in 1..(IF F = 0 THEN 1 ELSE F)
RECURSIVE SumAcc(_)
SumAcc(w) == IF w = 0 THEN 0 ELSE Len(ws[w].acc) + SumAcc(w - 1)
Exact == (\A w \in 1..W : Done(w)) => SumAcc(W) = N
(* the pattern in progress is what the draws since the last pattern say *)
Replay == \A w \in 1..W : LET r == Run(Fresh, drawn[w], NModes, F, Cut, MaxP, Early) IN r.buf = ws[w].buf /\ r.ch = ws[w].ch
(* abandoning early changes nothing in what is accepted: an abandoned prefix has no acceptable completion *)
EarlySound == \A w \in 1..W : Over(ws[w].buf, F, Cut, MaxP) =>
   \A rest \in [1..(NModes - Len(ws[w].buf)) -> Outcomes] : Over(ws[w].buf \o rest, F, Cut, MaxP)
AllDone == <>[](\A w \in 1..W : Done(w))
=============================================================================
