------------------------------ MODULE JJaeger ------------------------------
(* Judges recorded runs of `app dig jaeger`.
   kind "find": the searches of a run
     from, toLo, toHi  period in seconds, relative; the end is between toLo and
                       toHi (it may be the unknown instant "now")
     ws      the searched windows [lo, hi, same]; same: service, limit, minimum
             duration as requested and nothing else asked for
     failed  a search failed;  exit, report, panic
     beyond  limit or minimum duration is more than a request can ask for
   kind "list": the traces delivered (see Jaeger) and the two lists of the
     report, each entry [tr, root, count, blame, nodes], nodes in preorder with
     [sp |-> span (0 unknown), up |-> index of the parent node, svc, st, en, same],
     st and en in milliseconds, same: name as delivered *)
EXTENDS Jaeger, TLC, Json
CONSTANTS Buckets, Prop
Recs == ndJsonDeserialize("recs.ndjson")
N == Len(Recs)

Find(r) ==
  IF r.panic THEN {"crashed"}
  ELSE IF r.beyond THEN
         (IF r.exit # 0 /\ ~r.report /\ r.ws = <<>> THEN {} ELSE {"something else is searched than what cannot be asked for"})
  ELSE IF r.failed THEN
         (IF r.exit # 0 /\ ~r.report THEN {} ELSE {"a search failed and there is a report or success"})
         \cup (IF Touching(r.ws) THEN {} ELSE {"windows leave a gap or overlap"})
  ELSE (IF r.exit = 0 /\ r.report THEN {} ELSE {"the command failed though every search succeeded"})
       \cup (IF \A k \in DOMAIN r.ws : r.ws[k].same THEN {} ELSE {"a search uses other parameters than requested"})
       \cup (IF Touching(r.ws) THEN {} ELSE {"windows leave a gap or overlap"})
       \cup (IF r.toHi <= r.fromLo THEN (IF r.ws = <<>> THEN {} ELSE {"an empty period is searched"})
             ELSE IF r.ws = <<>> THEN (IF r.toLo <= r.fromHi THEN {} ELSE {"nothing is searched"})
             ELSE (IF r.fromLo <= r.ws[1].lo /\ r.ws[1].lo <= r.fromHi THEN {} ELSE {"the search does not begin at the start"})
                  \cup (IF Last(r.ws).hi >= r.toLo THEN {} ELSE {"the search stops before the end"})
                  \cup (IF Last(r.ws).lo < r.toHi \/ Len(r.ws) = 1 THEN {} ELSE {"a window lies behind the end"}))

(* ---- lists -------------------------------------------------------------- *)
All(r) == UNION {{<<t, i>> : i \in Roots(r.traces[t])} : t \in DOMAIN r.traces}
Ids(l) == [k \in DOMAIN l |-> <<l[k].tr, l[k].root>>]
D(r, x) == Dur(r.traces[x[1]], x[2])

Known(l) == \A k \in DOMAIN l : l[k].tr # 0 /\ l[k].root # 0 /\ \A n \in DOMAIN l[k].nodes : l[k].nodes[n].sp # 0

(* nodes of one entry against its trace *)
NodeData(tr, ns) == \A n \in DOMAIN ns :
  LET s == tr[ns[n].sp] IN ns[n].same /\ ns[n].svc = Shown(tr, ns[n].sp) /\ ns[n].st = s.st \div 4 /\ ns[n].en = s.en \div 4
NodeSet(tr, root, ns) == {ns[n].sp : n \in DOMAIN ns} = KeptIn(tr, root) /\ Cardinality({ns[n].sp : n \in DOMAIN ns}) = Len(ns)
NodeUps(tr, ns) == \A n \in DOMAIN ns : (IF ns[n].up = 0 THEN 0 ELSE ns[ns[n].up].sp) = KeptAbove(tr, ns[n].sp)
NodeOrder(tr, ns) == \A n, m \in DOMAIN ns : (n < m /\ ns[n].up = ns[m].up /\ ns[n].up # 0) => MayPrecede(tr, ns[n].sp, ns[m].sp)

Trees(r, l, f(_, _)) == \A k \in DOMAIN l : f(r.traces[l[k].tr], l[k])

SlowOnce(r) == Cardinality(Items(Ids(r.slow))) = Len(r.slow)
SameOnce(r) == Cardinality(Items(Ids(r.rep))) = Len(r.rep)

Shape(r) ==
  LET both == r.slow \o r.rep
  IN (IF Trees(r, both, LAMBDA tr, e : NodeSet(tr, e.root, e.nodes)) THEN {} ELSE {"a shown trace has not exactly the right spans"})
     \cup (IF Trees(r, both, LAMBDA tr, e : NodeUps(tr, e.nodes)) THEN {} ELSE {"a span hangs below the wrong span"})
     \cup (IF Trees(r, both, LAMBDA tr, e : NodeOrder(tr, e.nodes)) THEN {} ELSE {"siblings are not in order"})
     \cup (IF Trees(r, both, LAMBDA tr, e : NodeData(tr, e.nodes)) THEN {} ELSE {"a span's data are not its own"})

List(r) ==
  IF r.panic THEN {"crashed"}
  ELSE IF r.exit # 0 \/ ~r.report THEN {"the command failed"}
  ELSE IF ~Known(r.slow) \/ ~Known(r.rep) THEN {"a trace or span is shown that was not delivered"}
  ELSE CASE Prop = "C15" ->
              Shape(r)
              \cup (IF SlowOnce(r) /\ SameOnce(r) THEN {} ELSE {"a trace is shown twice in a list"})
              \cup (IF Cardinality(All(r)) > 100 \/ Items(Ids(r.slow)) = All(r) THEN {} ELSE {"a trace is lost"})
         [] Prop = "C16" -> Shape(r)
         [] Prop = "C17" ->
              LET a == All(r)
                  s == Items(Ids(r.slow))
                  want == {x \in a : MaxCount(r.traces[x[1]], x[2]) > r.thr}
              IN (IF SlowOnce(r) /\ Len(r.slow) = Min({100, Cardinality(a)}) THEN {} ELSE {"the slow list has the wrong length"})
                 \cup (IF \A k \in 1..(Len(r.slow) - 1) : D(r, Ids(r.slow)[k]) >= D(r, Ids(r.slow)[k + 1]) THEN {} ELSE {"the slow list is not sorted"})
                 \cup (IF r.slow = <<>> \/ \A x \in a \ s : D(r, x) <= D(r, Last(Ids(r.slow))) THEN {} ELSE {"a slower trace is missing"})
                 \cup (IF SameOnce(r) /\ Items(Ids(r.rep)) = want THEN {} ELSE {"the repetitive list is wrong"})
                 \cup (IF Trees(r, r.slow \o r.rep, LAMBDA tr, e : e.count = MaxCount(tr, e.root)) THEN {} ELSE {"the access count of a trace is wrong"})
         [] Prop = "C18" ->
              IF Trees(r, r.slow \o r.rep, LAMBDA tr, e : e.blame \in Blamed(tr, e.root)) THEN {} ELSE {"another service consumed more time"}

VARIABLES b, i
Init == b \in 1..Buckets /\ i = 0
Next == /\ i * Buckets + b <= N
        /\ i' = i + 1 /\ b' = b
        /\ LET r == Recs[i * Buckets + b]
           IN \A w \in (IF r.kind = "find" THEN Find(r) ELSE List(r)) : PrintT(<<"REJECT", r.id, w>>)
Spec == Init /\ [][Next]_<<b, i>>
=============================================================================
