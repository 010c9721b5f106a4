--------------------------------- MODULE PI ---------------------------------
(* The dig command for Performance Insights: which databases and which time is
   asked for, and how data points become hourly loads.

   Times are seconds relative to the full hour (UTC) at or before the start;
   the period is [off, off + Period) with 0 <= off < 3600.
   A data point is [db, tok, sql, t, v, ok]: the instance, whether it belongs to
   the tokenized grouping, the statement, the time, the value (in 1/1024), and
   whether it has both a time and a value. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Hour == 3600
HalfDay == 43200
Period == 604800
HourOf(t) == t \div Hour
Sum(f, S) == FoldSet(LAMBDA i, a : a + f[i], 0, S)

(* ---- what has to be asked ---------------------------------------------------- *)
Windows(off) == [k \in 1..(Period \div HalfDay) |-> [lo |-> off + (k - 1) * HalfDay, hi |-> off + k * HalfDay]]
(* a set of windows tiles [lo, hi) *)
Tiles(ws, lo, hi) ==
  LET s == SetToSortSeq(ws, LAMBDA x, y : x.lo < y.lo)
  IN /\ ws # {} /\ s[1].lo = lo /\ Last(s).hi = hi
     /\ \A k \in 1..Len(s) : s[k].lo < s[k].hi
     /\ \A k \in 1..(Len(s) - 1) : s[k].hi = s[k + 1].lo

(* ---- what has to be shown ---------------------------------------------------- *)
Counts(p) == p.ok /\ p.v # 0
(* indices of the points of one hour, instance and statement *)
Here(ps, tok, h, d, s) == {i \in DOMAIN ps : Counts(ps[i]) /\ ps[i].tok = tok /\ HourOf(ps[i].t) = h /\ ps[i].db = d /\ ps[i].sql = s}
Keys(ps, tok) == {<<HourOf(ps[i].t), ps[i].db, ps[i].sql>> : i \in {j \in DOMAIN ps : Counts(ps[j]) /\ ps[j].tok = tok}}
LoadSum(ps, tok, k) == Sum([i \in DOMAIN ps |-> ps[i].v], Here(ps, tok, k[1], k[2], k[3]))
LoadMax(ps, tok, k) == Max({ps[i].v : i \in Here(ps, tok, k[1], k[2], k[3])})
Loads(ps, tok) == {[key |-> k, sum |-> LoadSum(ps, tok, k), max |-> LoadMax(ps, tok, k)] : k \in Keys(ps, tok)}
(* the hours shown, from the one of the start; the hour beginning at the very end may be shown, too *)
HoursOk(off, hs) == /\ \A k \in DOMAIN hs : hs[k] = k - 1
                    /\ Len(hs) >= HourOf(off + Period - 1) + 1 /\ Len(hs) <= HourOf(off + Period) + 1
=============================================================================
