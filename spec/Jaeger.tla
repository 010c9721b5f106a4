------------------------------- MODULE Jaeger -------------------------------
(* The dig command for traces: which instants are searched, how spans form
   trees, what compaction keeps, which traces are listed and which service is
   blamed.

   A trace is a sequence of spans [par, svc, db, st, en]:
     par  index of the parent span, 0 for none, -1 for one that is not delivered
     db   "" = no db.system attribute, otherwise its value ("-" stands for an
          attribute whose value is no text)
     st, en  start and end, in quarters of a millisecond *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Items(s) == {s[i] : i \in DOMAIN s}

(* ---- the searched windows ------------------------------------------------ *)
Interval == 1800
(* windows of whole seconds for a period of whole seconds [from, to) *)
NWindows(from, to) == IF to <= from THEN 0 ELSE ((to - from) + Interval - 1) \div Interval
Windows(from, to) == [k \in 1..NWindows(from, to) |-> [lo |-> from + (k - 1) * Interval, hi |-> from + k * Interval]]
Touching(ws) == \A k \in 1..(Len(ws) - 1) : ws[k].hi = ws[k + 1].lo
Covers(ws, from, to) == IF to <= from THEN ws = <<>> ELSE ws # <<>> /\ ws[1].lo <= from /\ Last(ws).hi >= to /\ Touching(ws)
SearchedBy(ws, t) == {k \in DOMAIN ws : ws[k].lo <= t /\ t < ws[k].hi}

(* ---- trees ----------------------------------------------------------------- *)
IsRoot(tr, i) == tr[i].par <= 0
Roots(tr) == {i \in DOMAIN tr : IsRoot(tr, i)}
Kids(tr, i) == {j \in DOMAIN tr : tr[j].par = i}
RECURSIVE RootOf(_, _), Above(_, _)
RootOf(tr, i) == IF IsRoot(tr, i) THEN i ELSE RootOf(tr, tr[i].par)
(* the path from the root down to i *)
Above(tr, i) == IF IsRoot(tr, i) THEN <<i>> ELSE Append(Above(tr, tr[i].par), i)

(* ---- compaction ------------------------------------------------------------- *)
DbLeaf(tr, i) == tr[i].db # "" /\ Kids(tr, i) = {}
Kept(tr, i) == \/ IsRoot(tr, i)
               \/ tr[i].svc # tr[tr[i].par].svc
               \/ DbLeaf(tr, i)
KeptIn(tr, r) == {i \in DOMAIN tr : RootOf(tr, i) = r /\ Kept(tr, i)}
RECURSIVE KeptAbove(_, _)
KeptAbove(tr, i) == IF IsRoot(tr, i) THEN 0
                    ELSE IF Kept(tr, tr[i].par) THEN tr[i].par ELSE KeptAbove(tr, tr[i].par)
Shown(tr, i) == IF DbLeaf(tr, i) THEN (IF tr[i].db = "-" THEN "" ELSE tr[i].db) \o " (" \o tr[i].svc \o ")" ELSE tr[i].svc
(* may x be shown before y? compare where their paths part *)
MayPrecede(tr, x, y) ==
  LET a == Above(tr, x)
      b == Above(tr, y)
      k == CHOOSE n \in 1..Len(a) : (n <= Len(b) /\ a[n] # b[n]) /\ \A m \in 1..(n - 1) : a[m] = b[m]
  IN tr[a[k]].st <= tr[b[k]].st

(* ---- counts and times --------------------------------------------------------- *)
Count(tr, r, s) == Cardinality({i \in KeptIn(tr, r) : Shown(tr, i) = s})
MaxCount(tr, r) == Max({Count(tr, r, Shown(tr, i)) : i \in KeptIn(tr, r)})
Dur(tr, r) == tr[r].en - tr[r].st

ShownKids(tr, i) == {j \in DOMAIN tr : Kept(tr, j) /\ KeptAbove(tr, j) = i}
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* the part of a span in which none of its shown children runs *)
OwnTime(tr, i) ==
  LET lo == tr[i].st
      hi == tr[i].en
      ks == ShownKids(tr, i)
      pts == SetToSortSeq({lo, hi} \cup UNION {{Clip(tr[j].st, lo, hi), Clip(tr[j].en, lo, hi)} : j \in ks}, LAMBDA x, y : x < y)
      free(k) == \A j \in ks : ~(tr[j].st <= pts[k] /\ pts[k + 1] <= tr[j].en)
  IN FoldSet(LAMBDA k, acc : acc + (IF free(k) THEN pts[k + 1] - pts[k] ELSE 0), 0, 1..(Len(pts) - 1))
TimeOf(tr, r, s) == FoldSet(LAMBDA i, acc : acc + OwnTime(tr, i), 0, {i \in KeptIn(tr, r) : Shown(tr, i) = s})
Blamed(tr, r) ==
  LET ss == {Shown(tr, i) : i \in KeptIn(tr, r)}
      most == Max({TimeOf(tr, r, s) : s \in ss})
  IN IF most = 0 THEN {""} ELSE {s \in ss : TimeOf(tr, r, s) = most}
=============================================================================
