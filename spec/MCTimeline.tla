---------------------------- MODULE MCTimeline -------------------------------
(* All plans of up to MaxN nodes (as depth sequences) with every choice of
   figures from a small set; lemmas on the bars; printed for replay. *)
EXTENDS Timeline, TLC, Json
CONSTANTS MaxN, Show
Figs == {[avg |-> -1, loops |-> -1], [avg |-> 0, loops |-> 1], [avg |-> 7, loops |-> 1], [avg |-> 3, loops |-> 2], [avg |-> 0, loops |-> 1001], [avg |-> 0, loops |-> 1000]}
VARIABLE p
Init == p = <<>>
Next == Len(p) < MaxN /\ \E f \in Figs, k \in 0..(IF p = <<>> THEN 0 ELSE Last(p).dep + 1) :
          p' = Append(p, [dep |-> k, avg |-> f.avg, loops |-> f.loops])
Spec == Init /\ [][Next]_p
RECURSIVE Forest(_, _, _, _)
(* the nodes lo..hi, whose roots have depth dep *)
Forest(q, lo, hi, dep) ==
  IF lo > hi THEN <<>>
  ELSE LET later == {i \in (lo + 1)..hi : q[i].dep = dep}
           nx == IF later = {} THEN hi + 1 ELSE CHOOSE i \in later : \A j \in later : i <= j
       IN <<[text |-> lo, title |-> lo, fig |-> <<>>, avg |-> q[lo].avg, loops |-> q[lo].loops, cost |-> q[lo].avg, kids |-> Forest(q, lo + 1, nx - 1, dep + 1)]>>
          \o Forest(q, nx, hi, dep)
Lemma == \A d \in {"mysql", "postgres", "hasura"} :
  LET b == Bars(d, Forest(p, 1, Len(p), 0)) IN
  /\ [k \in 1..Len(b) |-> b[k].text] = [k \in 1..Len(p) |-> k]
  /\ \A k \in DOMAIN b : b[k].s < b[k].e /\ b[k].start >= 0 /\ b[k].e >= b[k].start
  \* a node never ends before the ones below it
  /\ \A i, j \in DOMAIN b : i < j /\ (\A k \in (i + 1)..j : p[k].dep > p[i].dep) => b[j].e <= b[i].e
Emit == Show /\ Len(p) = MaxN => PrintT(<<"PLAN", ToJson(p)>>)
=============================================================================
