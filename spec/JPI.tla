--------------------------------- MODULE JPI --------------------------------
(* Judges recorded runs of `db dig performance-insights`.
     off, offHi   where the period begins (in milliseconds for C19 and in seconds
                  for C20, relative to the full hour of the start); between the
                  two if the start is the unknown instant "7 days ago"
     mine         resource ids of the MySQL instances;  other  those of others
     rds          [page, more, ok] answered pages of instances (page 0, 1, ...)
     reqs         [db, tok, lo, hi, page, more, ok, same] requests for metrics,
                  same: metric, grouping, service as documented
     fatal        a request failed and was not answered when repeated
     pts          delivered points;  dbs shown by the name of the instance
     lists        for the two groupings: hours and entries of the report *)
EXTENDS PI, TLC, Json
CONSTANTS Buckets, Prop
Recs == ndJsonDeserialize("recs.ndjson")
N == Len(Recs)

Good(r) == {i \in DOMAIN r.reqs : r.reqs[i].ok}
Wins(r, d, tok) == {[lo |-> r.reqs[i].lo, hi |-> r.reqs[i].hi] : i \in {j \in Good(r) : r.reqs[j].db = d /\ r.reqs[j].tok = tok}}
(* every page of every window is read *)
AllPages(r) == \A i \in Good(r) : r.reqs[i].more =>
  \E j \in Good(r) : r.reqs[j].db = r.reqs[i].db /\ r.reqs[j].tok = r.reqs[i].tok /\ r.reqs[j].lo = r.reqs[i].lo /\ r.reqs[j].page = r.reqs[i].page + 1
FirstPages(r) == \A i \in Good(r) : r.reqs[i].page > 0 =>
  \E j \in Good(r) : r.reqs[j].db = r.reqs[i].db /\ r.reqs[j].tok = r.reqs[i].tok /\ r.reqs[j].lo = r.reqs[i].lo /\ r.reqs[j].page = r.reqs[i].page - 1
AllRds(r) == \A i \in DOMAIN r.rds : (r.rds[i].ok /\ r.rds[i].more) => \E j \in DOMAIN r.rds : r.rds[j].ok /\ r.rds[j].page = r.rds[i].page + 1
Starts(r) == {r.reqs[i].lo : i \in Good(r)}
PeriodMs == Period * 1000
Covered(r) == \A d \in ToSet(r.mine), tok \in {TRUE, FALSE} :
  LET ws == Wins(r, d, tok) IN ws # {} /\ LET s == Min({w.lo : w \in ws}) IN s >= r.off /\ s <= r.offHi /\ Tiles(ws, s, s + PeriodMs)
Only(r) == \A i \in DOMAIN r.reqs : r.reqs[i].db \in ToSet(r.mine)

C19(r) ==
  IF r.panic THEN {"crashed"}
  ELSE IF r.fatal THEN (IF r.exit # 0 /\ ~r.report THEN {} ELSE {"a request failed and there is a report or success"})
                       \cup (IF Only(r) THEN {} ELSE {"metrics of another database are requested"})
  ELSE (IF r.exit = 0 /\ r.report THEN {} ELSE {"the command failed though every request succeeded"})
       \cup (IF r.rds # <<>> /\ AllRds(r) THEN {} ELSE {"not every page of instances is read"})
       \cup (IF Only(r) THEN {} ELSE {"metrics of another database are requested"})
       \cup (IF \A i \in DOMAIN r.reqs : r.reqs[i].same THEN {} ELSE {"something else than the load by statement is requested"})
       \cup (IF Covered(r) THEN {} ELSE {"the requested windows are not the seven days from the start"})
       \cup (IF AllPages(r) /\ FirstPages(r) THEN {} ELSE {"not every page of metrics is read"})

Shown(l) == {[key |-> <<l.rows[i].h, l.rows[i].db, l.rows[i].sql>>, sum |-> l.rows[i].sum, max |-> l.rows[i].max] : i \in DOMAIN l.rows}
Tids(r, tok, k) == {r.pts[i].tid : i \in Here(r.pts, tok, k[1], k[2], k[3])}
ListOk(r, l, tok) ==
  (IF HoursOk(r.off, l.hours) THEN {} ELSE {"the hours are not those of the seven days, each once and in order"})
  \cup (IF l.dbOnce THEN {} ELSE {"an instance appears twice in an hour"})
  \cup (IF Cardinality(Shown(l)) = Len(l.rows) /\ Shown(l) = Loads(r.pts, tok) THEN {} ELSE {"the loads are not those of the data points"})
  \cup (IF Shown(l) # Loads(r.pts, tok) \/ \A i \in DOMAIN l.rows : l.rows[i].tid \in Tids(r, tok, <<l.rows[i].h, l.rows[i].db, l.rows[i].sql>>) THEN {} ELSE {"the id of a statement is not its own"})
C20(r) ==
  IF r.panic THEN {"crashed"}
  ELSE IF r.exit # 0 \/ ~r.report THEN {"the command failed"}
  ELSE ListOk(r, r.lists[1], FALSE) \cup ListOk(r, r.lists[2], TRUE)

Why(r) == IF Prop = "C19" THEN C19(r) ELSE C20(r)
VARIABLES b, i
Init == b \in 1..Buckets /\ i = 0
Next == /\ i * Buckets + b <= N
        /\ i' = i + 1 /\ b' = b
        /\ LET r == Recs[i * Buckets + b] IN \A w \in Why(r) : PrintT(<<"REJECT", r.id, w>>)
Spec == Init /\ [][Next]_<<b, i>>
=============================================================================
