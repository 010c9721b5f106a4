-------------------------------- MODULE Loads --------------------------------
(* The charts of database load (C30).  hours is a sequence of sequences of
   [db, sql, tok, max, sum]; loads are in units of 1/1024, percentages in units
   of 1/1024 percent (so 100 times as much). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Flat(hours) == FlattenSeq([h \in 1..Len(hours) |-> [k \in 1..Len(hours[h]) |-> [hours[h][k] EXCEPT !.h = h]]])
Heavy(x) == x.max * 1000 >= 5 * 1024              \* 0.5 percent
Sum(s) == FoldLeft(LAMBDA a, x : a + x.sum, 0, s)
Key(x) == [db |-> x.db, sql |-> x.sql]
Keys(xs, dbs) == {Key(xs[i]) : i \in {j \in DOMAIN xs : xs[j].db \in dbs}}
Of(xs, k) == SelectSeq(xs, LAMBDA x : Key(x) = k)
Pct2(max) == (max * 20000 + 1024) \div 2048        \* percentage with two decimals, in hundredths

(* the first of a ranking of n: a list of the greatest ones, ties in any order *)
TopOf(shown, vals, all, n) ==
  /\ Len(shown) = (IF Cardinality(all) < n THEN Cardinality(all) ELSE n)
  /\ \A i, j \in DOMAIN shown : i < j => shown[i] # shown[j] /\ vals[shown[i]] >= vals[shown[j]]
  /\ ToSet(shown) \subseteq all
  /\ shown # <<>> => \A k \in all \ ToSet(shown) : vals[k] <= vals[Last(shown)]

(* r: hours, dbs (ticked), bars [db, sql, y] *)
RankingRule(r) ==
  LET xs == Flat(r.hours)
      all == Keys(xs, ToSet(r.dbs))
      total == [k \in all |-> 100 * Sum(Of(xs, k))]
      shown == [i \in DOMAIN r.bars |-> [db |-> r.bars[i].db, sql |-> r.bars[i].sql]]
  IN (IF ToSet(shown) \subseteq all THEN {} ELSE {"the ranking shows what is not there"})
     \cup (IF ToSet(shown) \subseteq all /\ ~TopOf(shown, total, all, 20) THEN {"the ranking does not show the heaviest statements"} ELSE {})
     \cup (IF \A i \in DOMAIN shown : shown[i] \in all => r.bars[i].y = total[shown[i]] THEN {} ELSE {"a statement has a wrong load"})

(* r: series [db, sql, data]; data is the sequence of y *)
SeriesRule(r) ==
  LET xs == Flat(r.hours)
      all == {k \in Keys(xs, ToSet(r.dbs)) : \E i \in DOMAIN xs : Key(xs[i]) = k /\ Heavy(xs[i])}
      keys == [i \in DOMAIN r.series |-> [db |-> r.series[i].db, sql |-> r.series[i].sql]]
      at(k, h) == LET s == SelectSeq(r.hours[h], LAMBDA x : Key(x) = k /\ Heavy(x)) IN IF s = <<>> THEN 0 ELSE 100 * s[1].max
  IN (IF ToSet(keys) = all /\ Len(keys) = Cardinality(all) THEN {} ELSE {"the timeline does not show the heavy statements"})
     \cup (IF \A i \in DOMAIN keys : Len(r.series[i].data) = Len(r.hours) /\ \A h \in 1..Len(r.hours) : r.series[i].data[h].y = at(keys[i], h)
           THEN {} ELSE {"the timeline shows a wrong load"})
     \cup (IF \A i \in DOMAIN keys : \A h \in DOMAIN r.series[i].data : r.series[i].data[h].y # 0 => r.series[i].data[h].x = h
           THEN {} ELSE {"the timeline shows a load at a wrong hour"})

(* r: tok, raw (hours of the plain statements), rows [db, sql, pct, h] *)
RawRule(r) ==
  LET xs == SelectSeq(Flat(r.raw), LAMBDA x : x.tok = r.tok)
      all == DOMAIN xs
      cell(i) == [db |-> xs[i].db, sql |-> xs[i].sql, pct |-> Pct2(xs[i].max), h |-> xs[i].h]
      of(c) == {i \in all : cell(i) = c}
      least == LET last == of(Last(r.rows)) IN CHOOSE m \in {xs[i].max : i \in last} : \A i \in last : m >= xs[i].max
  IN (IF Len(r.rows) = (IF Len(xs) < 10 THEN Len(xs) ELSE 10) THEN {} ELSE {"not the ten heaviest plain statements are listed"})
     \cup (IF \A i \in DOMAIN r.rows : of(r.rows[i]) # {} THEN {} ELSE {"a plain statement is listed which is not of the chosen one"})
     \cup (IF \A i, j \in DOMAIN r.rows : i < j => r.rows[i].pct >= r.rows[j].pct /\ r.rows[i] # r.rows[j] THEN {} ELSE {"the plain statements are not listed from the heaviest"})
     \cup (IF r.rows # <<>> /\ of(Last(r.rows)) # {}
              /\ \E i \in all : xs[i].max > least /\ cell(i) \notin ToSet(r.rows)
           THEN {"a heavier plain statement is missing"} ELSE {})

BoxRule(r) == IF r.boxes = r.want THEN {} ELSE {"the databases to choose from are not those of the report"}
LoadRule(r) == IF r.crash # "" THEN {"the page crashes"}
               ELSE CASE r.kind = "ranking" -> RankingRule(r) [] r.kind = "series" -> SeriesRule(r)
                      [] r.kind = "raw" -> RawRule(r) [] OTHER -> BoxRule(r)
=============================================================================
