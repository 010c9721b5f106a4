------------------------------ MODULE JScope -------------------------------
(* Judges the suggestions of recorded runs against Scope. *)
EXTENDS Scope, TLC, Json
CONSTANTS Buckets, Prop
Recs == ndJsonDeserialize("recs.ndjson")
N == Len(Recs)

Refused(r) == r.exit # 0 /\ ~r.report /\ ~r.panic

Verdict(r) ==
  IF r.kind = "refuse" THEN
    IF Refused(r) THEN {}
    ELSE {IF r.panic THEN "crashed instead of refusing" ELSE "not refused: " \o r.what}
  ELSE IF r.exit # 0 \/ ~r.report THEN {"a supported query was refused"}
  ELSE
  LET got == Items(r.got)
  IN CASE Prop = "C07" ->
            LET u == Uses(r.sch, r.opq, r.q)
                want == AllCandidates(r.sch, r.opq, r.q, r.rank)
            IN (IF \A x \in got : x.t \in r.reads THEN {} ELSE {"an index on a table the query does not read"})
               \cup (IF Pairs(got) \subseteq u.c \cup u.r THEN {} ELSE {"an index over a column the query does not mention for that table"})
               \cup (IF Pairs(want) \subseteq Pairs(got) THEN {} ELSE {"a used column is in no index"})
               \cup (IF Leaders(want) \subseteq Leaders(got) THEN {} ELSE {"a condition's column leads no index"})
               \cup (IF RestLast(u, got) THEN {} ELSE {"a column outside conditions stands before one of the conditions"})
       [] Prop = "C08" ->
            LET want == NotYet(AllCandidates(r.sch, r.opq, r.q, r.rank), r.existing, r.fold)
            IN (IF want \subseteq got THEN {} ELSE {"a candidate is missing"})
               \cup (IF got \subseteq want THEN {} ELSE {"an index is suggested which is no candidate"})
               \cup (IF NoDup(r.got) THEN {} ELSE {"a candidate is suggested twice"})
       [] Prop = "C24" ->
            LET want == AllCandidates(r.sch, r.opq, r.q, r.rank)
            IN IF got = NotYet(want, r.existing, r.fold) THEN {}
               ELSE {"the suggestions do not follow from the configured schema alone"}
       [] Prop = "C09" ->
            LET want == Withhold(r.base, r.existing, r.fold)
            IN (IF Items(want) \subseteq got THEN {} ELSE {"a candidate without a matching index was withheld"})
               \cup (IF got \subseteq Items(want) THEN {} ELSE {"a candidate was suggested though the index exists"})
       [] Prop = "C10" ->
            (IF Ordered(r.got, r.rank) THEN {} ELSE {"the suggestions are not in canonical order"})
            \cup (IF \A i \in DOMAIN r.others : r.others[i] = r.got THEN {} ELSE {"the same query gave other suggestions"})
            \cup (IF \A i \in DOMAIN r.reps : r.reps[i] = r.reps[1] THEN {} ELSE {"the same run gave another report"})
       [] Prop = "C25" -> {}

VARIABLES b, i
Fix(r) == IF "reads" \in DOMAIN r THEN [r EXCEPT !.reads = Items(r.reads)] ELSE r
Init == b \in 1..Buckets /\ i = 0
Next == /\ i * Buckets + b <= N
        /\ i' = i + 1 /\ b' = b
        /\ LET r == Fix(Recs[i * Buckets + b])
           IN \A w \in Verdict(r) : PrintT(<<"REJECT", r.id, w>>)
Spec == Init /\ [][Next]_<<b, i>>
=============================================================================
