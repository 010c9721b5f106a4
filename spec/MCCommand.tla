----------------------------- MODULE MCCommand -----------------------------
(* The state machine of a run.  A plan says what is wrong: nothing, a setting,
   the output path, or up to two requests (with the way they fail).  TLC checks
   that the rule of Command accepts every run of this machine, and that the
   machine writes the file last and only if nothing failed; every plan is
   emitted and replayed into gr. *)
EXTENDS Command, TLC, Json
CONSTANTS Cmds, Cands, Spots, Modes, MaxFaults, Outs
VARIABLES cmd, ex, n, cfg, out, flt, pos, ev, live, file, st, tries
vars == <<cmd, ex, n, cfg, out, flt, pos, ev, live, file, st, tries>>
plan == <<cmd, ex, n, cfg, out, flt>>

DbBad == {"no-user", "no-db", "no-query", "no-output", "bad-index", "not-select", "syntax", "no-table", "no-column", "bad-param", "unreachable", "denied"}
Bad == [mysql |-> DbBad, postgres |-> DbBad,
        hasura |-> {"no-url", "no-secret", "no-query", "no-output", "bad-index", "bad-variables", "bad-variables-list", "trailing-variables", "syntax", "no-table", "no-column", "two-queries", "no-queries", "unreachable"},
        pi |-> {"no-output", "bad-start", "no-region", "unknown-flag"},
        jaeger |-> {"no-output", "no-service", "no-ui", "no-grpc", "bad-start", "bad-number", "unreachable"}]
Exam(c) == <<"exec">> \o FlattenSeq([i \in 1..c |-> <<"create", "exec", "drop">>])
Steps == IF cmd = "pi" THEN <<"rds">> \o [i \in 1..28 |-> "pi"]
         ELSE IF cmd = "jaeger" THEN [i \in 1..48 |-> "find"]
         ELSE (IF cmd = "hasura" THEN <<>> ELSE <<"connect">>) \o <<"explain", "columns", "indexes">> \o (IF ex THEN Exam(n) ELSE <<>>)
(* what identifies a request: logins and executions all look alike, the others differ *)
Key(i) == IF Steps[i] \in {"exec", "connect"} THEN "q" ELSE ToString(i)

(* the dig of Performance Insights always writes a file *)
MyOuts == IF cmd = "pi" THEN Outs \ {"none"} ELSE Outs
Init == /\ cmd \in Cmds /\ ex \in (IF cmd \in {"pi", "jaeger"} THEN {FALSE} ELSE BOOLEAN)
        /\ n \in (IF ex THEN Cands ELSE {0})
        /\ \/ cfg = "ok" /\ out \in MyOuts \cap Writable
              /\ flt \in UNION {UNION {[s -> IF cmd \in {"hasura", "pi"} THEN Modes ELSE Modes \ {"odd"}] : s \in {t \in kSubset(k, IF cmd \in {"pi", "jaeger"} THEN Spots ELSE 1..Len(Steps)) : TRUE}} : k \in 0..MaxFaults}
           \/ cfg = "ok" /\ out \in Outs \ Writable /\ flt = [x \in {} |-> ""]
           \/ cfg \in Bad[cmd] /\ out \in MyOuts \cap {"absent", "old"} /\ flt = [x \in {} |-> ""]
        /\ pos = 0 /\ ev = <<>> /\ live = 0 /\ st = "run" /\ tries = 0
        /\ file = IF out = "old" THEN "unchanged" ELSE "absent"

Rec(i, res) == ev' = Append(ev, [k |-> Steps[i], key |-> Key(i), res |-> res])
Configure == pos = 0 /\ st = "run" /\ ev' = ev /\ UNCHANGED <<plan, file, live, tries>>
             /\ IF cfg = "ok" THEN pos' = 1 /\ st' = st ELSE st' = "failed" /\ pos' = pos
After(i) == IF Steps[i] = "create" THEN live + 1 ELSE IF Steps[i] = "drop" THEN live - 1 ELSE live
Ask(i) == st = "run" /\ pos = i /\ i >= 1 /\ i <= Len(Steps) /\ UNCHANGED <<plan, file>> /\
  IF i \in DOMAIN flt
  THEN \/ (* the request fails and is not repeated: clean up, then fail *)
          /\ Rec(i, IF flt[i] = "close" THEN "lost" ELSE IF flt[i] = "odd" THEN "odd" ELSE "err")
          /\ IF Steps[i] = "exec" /\ live > 0 THEN st' = "clean" ELSE st' = "failed"
          /\ UNCHANGED <<pos, live, tries>>
       \/ (* an answer lacking something may be good enough *)
          /\ flt[i] = "odd" /\ Rec(i, "odd") /\ pos' = i + 1 /\ live' = After(i) /\ UNCHANGED <<st, tries>>
       \/ (* the connection is lost, the client connects again and repeats the request with success *)
          /\ flt[i] = "close" /\ Steps[i] # "connect" /\ tries = 0
          /\ ev' = ev \o (<<[k |-> Steps[i], key |-> Key(i), res |-> "lost"]>>
                   \o (IF cmd \in {"mysql", "postgres"} THEN <<[k |-> "connect", key |-> "q", res |-> "ok"]>> ELSE <<>>)
                   \o <<[k |-> Steps[i], key |-> Key(i), res |-> "ok"]>>)
          /\ pos' = i + 1 /\ tries' = 1 /\ live' = After(i) /\ st' = st
  ELSE /\ Rec(i, "ok") /\ pos' = i + 1
       /\ live' = After(i)
       /\ UNCHANGED <<st, tries>>
Clean == st = "clean" /\ st' = "failed"
         /\ LET f == pos + 1 \in DOMAIN flt
            IN /\ ev' = Append(ev, [k |-> "drop", key |-> ToString(pos + 1), res |-> IF ~f THEN "ok" ELSE IF flt[pos + 1] = "odd" THEN "odd" ELSE "err"])
               /\ live' = IF f /\ flt[pos + 1] # "odd" THEN live ELSE live - 1
         /\ UNCHANGED <<plan, pos, file, tries>>
Report == st = "run" /\ pos = Len(Steps) + 1 /\ UNCHANGED <<plan, pos, ev, live, tries>> /\
  IF out = "none" THEN st' = "done" /\ file' = file
  ELSE IF out \in Writable THEN st' = "done" /\ file' = "written"
  ELSE st' = "failed" /\ file' = file
Next == Configure \/ (\E i \in 1..48 : Ask(i)) \/ Clean \/ Report
Spec == Init /\ [][Next]_vars

Seen == [cfg |-> cfg, out |-> out, ev |-> ev, exit |-> IF st = "done" THEN 0 ELSE 1, err |-> st = "failed", panic |-> FALSE, hang |-> FALSE,
         file |-> file, whole |-> TRUE]
Ended == st \in {"failed", "done"}
Accepted == Ended => Rule(Seen) = {}
(* the rule is not vacuous: it refuses the same run with the status, the message or the file falsified *)
Sharp == Ended =>
  /\ ~Odd(ev) => Rule([Seen EXCEPT !.exit = 1 - @]) # {}
  /\ out # "none" => Rule([Seen EXCEPT !.exit = 1 - @]) # {}
  /\ st = "failed" => Rule([Seen EXCEPT !.err = FALSE]) # {} /\ Rule([Seen EXCEPT !.file = "written"]) # {}
  /\ st = "done" /\ out # "none" => Rule([Seen EXCEPT !.file = "absent"]) # {} /\ Rule([Seen EXCEPT !.whole = FALSE]) # {}
ReportLast == file = "written" => st = "done" /\ live = 0
NothingLeft == Ended /\ (\A i \in DOMAIN ev : ev[i].k = "drop" => ev[i].res = "ok") => live = 0
Emit == pos = 0 /\ st = "run" => PrintT(<<"CMD", ToJson([cmd |-> cmd, ex |-> ex, n |-> n, cfg |-> cfg, out |-> out,
   flt |-> [i \in 1..Cardinality(DOMAIN flt) |-> LET p == SetToSortSeq(DOMAIN flt, LAMBDA x, y : x < y)[i] IN
             [k |-> Steps[p], nth |-> Cardinality({q \in 1..p : Steps[q] = Steps[p]}), mode |-> flt[p]]]])>>)
=============================================================================
