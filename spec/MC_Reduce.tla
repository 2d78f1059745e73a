----------------------------- MODULE MC_Reduce -----------------------------
(***************************************************************************)
(* The parallel sums of the library (hafnian, permanent, Bristolian and    *)
(* torontonian kernels): iterations are handed to workers in any order;    *)
(* each worker reads and writes an accumulator of its own, step by step;   *)
(* the accumulators are added up at the end.  Whatever the schedule and    *)
(* the number of workers, the result is the sum over all iterations.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Iters, Workers
Term(i) == i * i - 3 * i + 1          (* terms of both signs, not distinct *)
VARIABLES todo, at, seen, acc, total, merged
vars == <<todo, at, seen, acc, total, merged>>
Init == /\ todo = 1..Iters /\ at = [w \in 1..Workers |-> 0] /\ seen = [w \in 1..Workers |-> 0]
        /\ acc = [w \in 1..Workers |-> 0] /\ total = 0 /\ merged = {}
Take(w) == \E i \in todo : /\ at[w] = 0 /\ at' = [at EXCEPT ![w] = i] /\ todo' = todo \ {i}
                           /\ seen' = [seen EXCEPT ![w] = acc[w]] /\ UNCHANGED <<acc, total, merged>>
Write(w) == /\ at[w] # 0 /\ acc' = [acc EXCEPT ![w] = seen[w] + Term(at[w])] /\ at' = [at EXCEPT ![w] = 0]
            /\ UNCHANGED <<todo, seen, total, merged>>
Idle == todo = {} /\ \A w \in 1..Workers : at[w] = 0
Merge(w) == /\ Idle /\ w \notin merged /\ total' = total + acc[w] /\ merged' = merged \cup {w} /\ UNCHANGED <<todo, at, seen, acc>>
Next == \E w \in 1..Workers : Take(w) \/ Write(w) \/ Merge(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE SumTo(_)
SumTo(n) == IF n = 0 THEN 0 ELSE Term(n) + SumTo(n - 1)
Result == merged = 1..Workers => total = SumTo(Iters)
Ends == <>(merged = 1..Workers)
=============================================================================
