------------------------------ MODULE MCLoads --------------------------------
(* All small reports of load: hours, databases, statements around the threshold;
   lemmas on what the charts must show; printed for replay. *)
EXTENDS Loads, TLC, Json
CONSTANTS MaxN, Show
Vals == {5, 6, 1024}
VARIABLE es
Init == es = <<>>
E0 == [h |-> 1, db |-> "", sql |-> "", tok |-> "", max |-> 0, sum |-> 0]
Cells == {[E0 EXCEPT !.h = h, !.db = d, !.sql = s, !.tok = s, !.max = v, !.sum = v] : h \in 1..2, d \in {"d1", "d2"}, s \in {"A", "B"}, v \in Vals}
Rank(e) == e.h * 4 + (IF e.db = "d2" THEN 2 ELSE 0) + (IF e.sql = "B" THEN 1 ELSE 0)
Next == Len(es) < MaxN /\ \E e \in {c \in Cells : es = <<>> \/ Rank(c) > Rank(Last(es))} : es' = Append(es, e)
Spec == Init /\ [][Next]_es
Hours == [h \in 1..2 |-> SelectSeq(es, LAMBDA e : e.h = h)]
Order(s) == SortSeq(s, LAMBDA a, b : a.y > b.y)
(* the charts drawn from the definition are accepted, a dropped bar is not *)
Lemma == \A dbs \in {<<"d1">>, <<"d1", "d2">>} :
  LET xs == Flat(Hours)
      all == SetToSeq(Keys(xs, ToSet(dbs)))
      bars == Order([i \in DOMAIN all |-> [db |-> all[i].db, sql |-> all[i].sql, y |-> 100 * Sum(Of(xs, all[i]))]])
      r == [hours |-> Hours, dbs |-> dbs, bars |-> bars]
  IN /\ RankingRule(r) = {}
     /\ bars # <<>> => RankingRule([r EXCEPT !.bars = Tail(@)]) # {}
Emit == Show /\ Len(es) = MaxN => PrintT(<<"LOADS", ToJson(es)>>)
=============================================================================
