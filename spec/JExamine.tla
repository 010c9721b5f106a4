----------------------------- MODULE JExamine ------------------------------
(* Judges recorded runs of the suggest commands: histories of statements as
   the stand-in server saw them, exit status, output file and report. *)
EXTENDS History, TLC, Json

CONSTANTS Buckets, Prop
Recs == ndJsonDeserialize("recs.ndjson")
N == Len(Recs)

(* JSON arrays to sets *)
Ev(e) == [e EXCEPT !.live = Range(e.live)]
Hist(r) == [i \in DOMAIN r.h |-> Ev(r.h[i])]

Verdict(r) ==
  LET h == Hist(r)
      s == Settled(h)
  IN CASE Prop = "C01" ->
            (IF EveryIndexDropped(r.be, h) THEN {} ELSE {"an acknowledged temporary index was never dropped"})
            \cup (IF NothingLeft(r.be, h, Range(r.left)) THEN {} ELSE {"a temporary index exists after the command ended"})
       [] Prop = "C02" ->
            (IF FirstRunBare(s) THEN {} ELSE {"no run without temporary indexes before the first index was created"})
            \cup (IF RunWithOwnIndex(s) THEN {} ELSE {"a run was made with other temporary indexes in place than its own"})
            \cup (IF OneRunPerIndex(s) THEN {} ELSE {"not exactly one run per index"})
            \cup (IF NeverTwo(s) THEN {} ELSE {"two temporary indexes coexist"})
            \cup (IF DropsOnlyOwn(r.be, s) THEN {} ELSE {"an index was dropped which the command did not create"})
            \cup (IF DropAfterRun(s) THEN {} ELSE {"an index was dropped before its run"})
            \cup (IF r.ex /\ r.exit = 0 => C02Success(h) THEN {} ELSE {"success without a run per index"})
            \cup (IF r.ex /\ r.valid /\ (r.given \/ (r.exit = 0 /\ r.out = "written")) => ExaminedExactly(h, r.want, r.exit = 0)
                  THEN {} ELSE {"the index in place is not the one examined"})
       [] Prop = "C03" ->
            (IF NoReportWhenFailed(h, r.exit, r.out) THEN {} ELSE {"a failed examination ended successfully or wrote a report"})
            \cup (IF r.ex /\ r.exit = 0 /\ r.out = "written" => TruthfulReport(h, r.rep, r.texit)
                  THEN {} ELSE {"the reported results are not those of the runs made"})
            \cup (IF ~r.ex /\ r.rep.has THEN {"examination results without an examination"} ELSE {})
       [] Prop = "C04" ->
            (IF r.single THEN IF OnlyAllowed(h, r.ex) THEN {} ELSE {"a statement was sent that was not asked for"}
             ELSE (IF NothingExecuted(h) THEN {} ELSE {"a text that is not one SELECT was executed"})
                  \cup (IF r.exit # 0 /\ r.out # "written" THEN {} ELSE {"a text that is not one SELECT was accepted"}))
       [] Prop = "C05" ->
            (IF r.valid
             THEN IF ~r.ex \/ ExaminedExactly(h, r.want, r.exit = 0) THEN {} ELSE {"other indexes than the given ones were examined"}
             ELSE IF RefusedUntouched(h, r.exit, r.out) THEN {} ELSE {"a malformed -i was not refused before any change"})
            \cup (IF r.must => r.exit = 0 THEN {} ELSE {"a well-formed -i was refused"})

VARIABLES b, i
Init == b \in 1..Buckets /\ i = 0
Next == /\ i * Buckets + b <= N
        /\ i' = i + 1 /\ b' = b
        /\ LET r == Recs[i * Buckets + b]
           IN \A w \in Verdict(r) : PrintT(<<"REJECT", r.id, w>>)
Spec == Init /\ [][Next]_<<b, i>>
=============================================================================
