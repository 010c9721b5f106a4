----------------------------- MODULE MCJaeger -----------------------------
(* Traces built span by span, and the algorithms that work on them (compaction
   with a stack of kept parents while walking the tree; the sweep over the
   children of a span) checked against Jaeger's definitions. Every complete
   trace is emitted for replay. *)
EXTENDS Jaeger, TLC, Json
CONSTANTS MaxSpans, Times, Svcs, Dbs
VARIABLES tr, done
vars == <<tr, done>>

Init == tr = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(tr) < MaxSpans
       /\ \E p \in (IF tr = <<>> THEN {0} ELSE DOMAIN tr), s \in Svcs, d \in Dbs, a \in Times, z \in Times :
            /\ a <= z
            /\ tr' = Append(tr, [par |-> p, svc |-> s, db |-> d, st |-> a, en |-> z])
       /\ done' = FALSE
Finish == ~done /\ tr # <<>> /\ done' = TRUE /\ tr' = tr
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

(* --- the walk: enter / leave with a stack of kept spans, result child -> parent *)
Ordered(S) == SetToSortSeq(S, LAMBDA x, y : tr[x].st < tr[y].st \/ (tr[x].st = tr[y].st /\ x < y))
RECURSIVE Walk(_, _, _)
Walk(i, stack, res) ==
  LET keep == Kept(tr, i)
      st2 == IF keep THEN Append(stack, i) ELSE stack
      res2 == IF keep THEN Append(res, <<i, IF stack = <<>> THEN 0 ELSE Last(stack)>>) ELSE res
  IN FoldSeq(LAMBDA j, acc : Walk(j, st2, acc), res2, Ordered(Kids(tr, i)))

(* --- the sweep over children sorted by start *)
Sweep(i) ==
  LET ks == Ordered(ShownKids(tr, i))
      lo == tr[i].st
      hi == tr[i].en
      f == FoldSeq(LAMBDA j, acc :
             LET a == Clip(tr[j].st, lo, hi)
                 z == Clip(tr[j].en, lo, hi)
             IN [sum |-> acc.sum + (IF acc.last < a THEN a - acc.last ELSE 0),
                 last |-> IF acc.last < z THEN z ELSE acc.last], [sum |-> 0, last |-> lo], ks)
  IN f.sum + (hi - f.last)

Lemmas == done =>
  LET w == Walk(1, <<>>, <<>>)
  IN /\ {w[k][1] : k \in DOMAIN w} = KeptIn(tr, 1) /\ Cardinality(KeptIn(tr, 1)) = Len(w)
     /\ \A k \in DOMAIN w : w[k][2] = KeptAbove(tr, w[k][1])
     /\ \A k, l \in DOMAIN w : (k < l /\ w[k][2] = w[l][2] /\ w[k][2] # 0) => MayPrecede(tr, w[k][1], w[l][1])
     /\ \A i \in KeptIn(tr, 1) : Sweep(i) = OwnTime(tr, i) /\ OwnTime(tr, i) <= tr[i].en - tr[i].st
     /\ MaxCount(tr, 1) <= Len(tr) /\ MaxCount(tr, 1) >= 1
     /\ Blamed(tr, 1) # {}
Emit == done => PrintT(<<"TRACE", ToJson(tr)>>)
=============================================================================
