------------------------------ MODULE MC_Memo ------------------------------
(***************************************************************************)
(* Memoised generators: a bounded cache (first in, first out) of objects   *)
(* that advance one generator on demand and replay its items to any number *)
(* of consumers.  The generator of key k reads the items of key k - 1      *)
(* through the same cache (as partitions(s) reads partitions(rest)).       *)
(* Any thread may be interrupted by an exception while it advances one.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, NKeys, NItems, Limit, MaxObj, Faults
VARIABLES cache, objs, thr, faults
vars == <<cache, objs, thr, faults>>
Keys == 1..NKeys
Item(k, i) == <<k, i>>
Unmemoised(k) == [i \in 1..NItems |-> Item(k, i)]
Nobody == "nobody"
(* objs[o]: key, items produced so far, owner of the lock, the object read by its generator *)
NewObj(k) == [key |-> k, items |-> <<>>, owner |-> Nobody, sub |-> 0]
(* thr[t]: key, object, items received, stack of objects being advanced, state *)
Init == /\ cache = <<>> /\ objs = <<>> /\ faults = 0
        /\ thr = [t \in Threads |-> [obj |-> 0, key |-> 0, got |-> <<>>, stack |-> <<>>, st |-> "new"]]
Cached(k) == {i \in 1..Len(cache) : objs[cache[i]].key = k}
Evict(c) == IF Len(c) > Limit THEN Tail(c) ELSE c
(* look k up (atomic: under the lock of the cache); returns <<cache, objs, object>> *)
Lookup(k) == IF Cached(k) # {} THEN <<cache, objs, cache[CHOOSE i \in Cached(k) : TRUE]>>
             ELSE <<Evict(Append(cache, Len(objs) + 1)), Append(objs, NewObj(k)), Len(objs) + 1>>
Open(t, k) == /\ thr[t].st = "new" /\ Len(objs) < MaxObj
              /\ LET l == Lookup(k) IN cache' = l[1] /\ objs' = l[2] /\ thr' = [thr EXCEPT ![t] = [obj |-> l[3], key |-> k, got |-> <<>>, stack |-> <<>>, st |-> "ready"]]
              /\ UNCHANGED faults
(* the object thread t is working on, and which of its items it wants *)
Top(t) == IF thr[t].stack = <<>> THEN thr[t].obj ELSE LET o == thr[t].stack[Len(thr[t].stack)] IN o
(* ask for the next item of the consumer: replayed, or the lock is taken *)
Ask(t) == /\ thr[t].st = "ready" /\ thr[t].stack = <<>>
          /\ LET o == thr[t].obj n == Len(thr[t].got) IN
             IF n < Len(objs[o].items)
             THEN thr' = [thr EXCEPT ![t].got = Append(@, objs[o].items[n + 1])] /\ UNCHANGED objs
             ELSE /\ objs[o].owner = Nobody
                  /\ objs' = [objs EXCEPT ![o].owner = t]
                  /\ thr' = [thr EXCEPT ![t].stack = <<o>>]
          /\ UNCHANGED <<cache, faults>>
(* advance the generator of the object on top of the stack *)
Advance(t) ==
  /\ thr[t].st = "ready" /\ thr[t].stack # <<>>
  /\ LET o == Top(t) n == Len(objs[o].items) k == objs[o].key st == thr[t].stack
         pop == SubSeq(st, 1, Len(st) - 1)
     IN IF n = NItems
        THEN (* exhausted *) /\ objs' = [objs EXCEPT ![o].owner = Nobody]
             /\ thr' = [thr EXCEPT ![t].stack = pop, ![t].st = IF pop = <<>> THEN "done" ELSE @]
             /\ UNCHANGED cache
        ELSE IF k = 1
        THEN /\ objs' = [objs EXCEPT ![o].items = Append(@, Item(1, n + 1)), ![o].owner = Nobody]
             /\ thr' = [thr EXCEPT ![t].stack = pop] /\ UNCHANGED cache
        ELSE IF objs[o].sub = 0
        THEN (* first item: the generator looks the smaller key up *)
             /\ Len(objs) < MaxObj
             /\ LET l == Lookup(k - 1) IN cache' = l[1] /\ objs' = [l[2] EXCEPT ![o].sub = l[3]]
             /\ UNCHANGED thr
        ELSE LET s == objs[o].sub IN
             IF n < Len(objs[s].items)
             THEN /\ objs' = [objs EXCEPT ![o].items = Append(@, Item(k, objs[s].items[n + 1][2])), ![o].owner = Nobody]
                  /\ thr' = [thr EXCEPT ![t].stack = pop] /\ UNCHANGED cache
             ELSE /\ objs[s].owner = Nobody
                  /\ objs' = [objs EXCEPT ![s].owner = t] /\ thr' = [thr EXCEPT ![t].stack = Append(@, s)] /\ UNCHANGED cache
  /\ UNCHANGED faults
(* an exception (a fault in the generator, an interrupt): every lock on the stack is
   released and the generators on it start again behind the items already produced *)
Fail(t) ==
  /\ thr[t].st = "ready" /\ thr[t].stack # <<>> /\ faults < Faults
  /\ LET on == {thr[t].stack[i] : i \in 1..Len(thr[t].stack)} IN
     objs' = [o \in 1..Len(objs) |-> IF o \in on THEN [objs[o] EXCEPT !.owner = Nobody, !.sub = 0] ELSE objs[o]]
  /\ thr' = [thr EXCEPT ![t].st = "failed", ![t].stack = <<>>]
  /\ faults' = faults + 1 /\ UNCHANGED cache
Next == \E t \in Threads : (\E k \in Keys : Open(t, k)) \/ Ask(t) \/ Advance(t) \/ Fail(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Ask(t)) /\ SF_vars(Advance(t))
(* ---- *)
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Replayed == \A t \in Threads : thr[t].st # "new" => Prefix(thr[t].got, Unmemoised(thr[t].key))
Complete == \A t \in Threads : thr[t].st = "done" => thr[t].got = Unmemoised(thr[t].key)
Bounded == Len(cache) <= Limit
OneEach == \A i, j \in 1..Len(cache) : objs[cache[i]].key = objs[cache[j]].key => i = j
LocksHeld == \A o \in 1..Len(objs) : objs[o].owner # Nobody => \E i \in 1..Len(thr[objs[o].owner].stack) : thr[objs[o].owner].stack[i] = o
NoDeadlock == (\E t \in Threads : thr[t].st = "ready") /\ Len(objs) < MaxObj => ENABLED (\E t \in Threads : Ask(t) \/ Advance(t))
Finishes == \A t \in Threads : (thr[t].st = "ready") ~> (thr[t].st \in {"done", "failed"} \/ Len(objs) >= MaxObj)
=============================================================================
