-------------------------------- MODULE MCPI --------------------------------
(* The whole run as a state machine: pages of instances, then per instance,
   window and grouping the pages of metrics, folded one after the other into
   hourly loads; any request may fail, which ends the run without a report. *)
EXTENDS PI, TLC, Json
CONSTANTS Offs, Dbs, Others, RPages, PPages, Cand, MaxPts, Modes
VARIABLES off, ndb, oth, rpage, ppage, pts, rs, k, load, st, fault
cfgv == <<off, ndb, oth, rpage, ppage, pts, rs>>
vars == <<cfgv, k, load, st, fault>>

(* candidates of points: place in the period x value; other fields follow *)
Place == <<0, HalfDay - 1, HalfDay, Period - 1>>
PointSet == {[db |-> d, tok |-> t, sql |-> s, t |-> p, v |-> v, ok |-> TRUE] : d \in {1}, t \in {FALSE, TRUE}, s \in {1, 2}, p \in Cand, v \in {0, 3, 5}}
Ceil(a, b) == IF b = 0 THEN 1 ELSE IF a = 0 THEN 1 ELSE (a + b - 1) \div b
NR == Ceil(ndb, rpage)
(* series delivered for one request: the total, and one per statement *)
InW(d, tok, w) == {i \in DOMAIN pts : pts[i].db = d /\ pts[i].tok = tok /\ pts[i].t >= w.lo /\ pts[i].t < w.hi}
Sqls(d, tok, w) == SetToSortSeq({pts[i].sql : i \in InW(d, tok, w)}, LAMBDA x, y : x < y)
Pages(d, tok, w) == LET s == <<0>> \o Sqls(d, tok, w)
                        n == Ceil(Len(s), ppage)
                    IN [p \in 1..n |-> IF ppage = 0 THEN s ELSE SubSeq(s, (p - 1) * ppage + 1, Min({p * ppage, Len(s)}))]
(* all metric requests in order *)
Reqs == FlattenSeq([d \in 1..ndb |-> FlattenSeq([w \in 1..Len(Windows(off)) |-> FlattenSeq([g \in 1..2 |->
          LET ps == Pages(d, g = 2, Windows(off)[w]) IN [p \in 1..Len(ps) |-> [db |-> d, tok |-> g = 2, w |-> Windows(off)[w], sqls |-> ToSet(ps[p])]]])])])

Init == /\ off \in Offs /\ ndb \in Dbs /\ oth \in Others /\ rpage \in RPages /\ ppage \in PPages
        /\ pts \in (IF ndb = 0 THEN {<<>>} ELSE {[i \in DOMAIN x |-> [x[i] EXCEPT !.t = off + Place[x[i].t], !.db = IF ndb > 1 /\ i % 2 = 0 THEN 2 ELSE 1]] : x \in {<<>>} \cup UNION {[1..n -> PointSet] : n \in 1..MaxPts}})
        /\ rs = Reqs
        /\ k = 0 /\ load = {} /\ st = "run" /\ fault = [at |-> 0, kind |-> "", mode |-> ""]

AddPoint(l, i) ==
  LET p == pts[i]
      key == <<HourOf(p.t), p.db, p.sql>>
      old == {e \in l : e.tok = p.tok /\ e.key = key}
  IN IF p.v = 0 THEN l
     ELSE IF old = {} THEN l \cup {[tok |-> p.tok, key |-> key, sum |-> p.v, max |-> p.v]}
     ELSE LET e == CHOOSE x \in old : TRUE
          IN (l \ {e}) \cup {[e EXCEPT !.sum = e.sum + p.v, !.max = Max({e.max, p.v})]}

Fail(kind, n) == st' = "failed" /\ \E m \in Modes : fault' = [at |-> n, kind |-> kind, mode |-> m] /\ UNCHANGED <<cfgv, k, load>>
AskRds == /\ st = "run" /\ k < NR
          /\ \/ k' = k + 1 /\ UNCHANGED <<cfgv, load, st, fault>>
             \/ Fail("rds", k + 1)
AskPi == /\ st = "run" /\ k >= NR /\ k < NR + Len(rs)
         /\ \/ /\ k' = k + 1 /\ UNCHANGED <<cfgv, st, fault>>
               /\ LET r == rs[k - NR + 1] IN
                  load' = FoldSeq(LAMBDA i, l : IF i \in InW(r.db, r.tok, r.w) /\ pts[i].sql \in r.sqls THEN AddPoint(l, i) ELSE l, load, [i \in DOMAIN pts |-> i])
            \/ Fail("pi", k - NR + 1)
Report == st = "run" /\ k = NR + Len(rs) /\ st' = "reported" /\ UNCHANGED <<cfgv, k, load, fault>>
Next == AskRds \/ AskPi \/ Report
Spec == Init /\ [][Next]_vars

Lemma == st = "reported" =>
  /\ {[key |-> e.key, sum |-> e.sum, max |-> e.max] : e \in {x \in load : x.tok}} = Loads(pts, TRUE)
  /\ {[key |-> e.key, sum |-> e.sum, max |-> e.max] : e \in {x \in load : ~x.tok}} = Loads(pts, FALSE)
  /\ Sum([e \in load |-> e.sum], load) = Sum([i \in DOMAIN pts |-> pts[i].v], DOMAIN pts)
  /\ \A d \in 1..ndb, t \in {TRUE, FALSE} : Tiles({rs[i].w : i \in {j \in DOMAIN rs : rs[j].db = d /\ rs[j].tok = t}}, off, off + Period)
Emit == st \in {"failed", "reported"} =>
  PrintT(<<"PI", ToJson([off |-> off, ndb |-> ndb, oth |-> oth, rpage |-> rpage, ppage |-> ppage, pts |-> pts, fault |-> fault])>>)
=============================================================================
