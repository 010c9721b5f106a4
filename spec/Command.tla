------------------------------ MODULE Command ------------------------------
(* Any command of gr as a run of steps: read the configuration, talk to the
   server, write the report as the last step.  The rule C22 is stated over what
   can be seen from outside:
     cfg    "ok", or what is wrong with the configuration
     out    what the output path is: "none" (no file asked for), "absent",
            "old" (a file is there), "dir", "full", "noparent" (not writable)
     ev     requests in order: k kind, key what was asked, res "ok", "err",
            "lost" or "odd" (an answer lacking what it should have)
     exit, err (an error was printed), panic, file (state of the output file
     at the end: "absent", "unchanged", "written"), whole (it is a complete page) *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Writable == {"none", "absent", "old"}
(* the next request that is no login *)
NextReq(ev, i) == LET js == {j \in DOMAIN ev : j > i /\ ev[j].k # "connect"}
                  IN IF js = {} THEN 0 ELSE Min(js)
(* a failed request does not count if it is repeated at once with success;
   a failed login, if a later one succeeds *)
RECURSIVE Repaired(_, _)
Repaired(ev, i) ==
  IF ev[i].k = "connect" THEN \E j \in DOMAIN ev : j > i /\ ev[j].k = "connect" /\ ev[j].res = "ok"
  ELSE LET j == NextReq(ev, i)
       IN /\ j # 0 /\ ev[j].k = ev[i].k /\ ev[j].key = ev[i].key
          /\ (ev[j].res \in {"ok", "odd"} \/ Repaired(ev, j))
Failed(ev) == {i \in DOMAIN ev : ev[i].res \in {"err", "lost"}}
Fatal(ev) == \E i \in Failed(ev) : ~Repaired(ev, i)
Odd(ev) == \E i \in DOMAIN ev : ev[i].res = "odd"

MustFail(r) == r.cfg # "ok" \/ r.out \notin Writable \/ Fatal(r.ev)
Untouched(r) == r.file = (IF r.out = "old" THEN "unchanged" ELSE "absent")
FailWell(r) == (IF r.exit # 0 THEN {} ELSE {"a step failed but the status is zero"})
               \cup (IF r.err THEN {} ELSE {"no error is printed"})
               \cup (IF Untouched(r) THEN {} ELSE {"the output file is created or altered though the command failed"})
SucceedWell(r) == (IF r.exit = 0 THEN {} ELSE {"every step succeeded but the status is not zero"})
                  \cup (IF r.out = "none" THEN (IF r.file = "absent" THEN {} ELSE {"a file nobody asked for"})
                        ELSE IF r.file = "written" /\ r.whole THEN {} ELSE {"the report is missing or incomplete"})
Rule(r) ==
  IF r.panic THEN {"crashed"}
  ELSE IF r.hang THEN {"did not end"}
  ELSE IF MustFail(r) THEN FailWell(r)
  ELSE IF Odd(r.ev) THEN (IF r.exit # 0 THEN FailWell(r) ELSE SucceedWell(r))
  ELSE SucceedWell(r)
=============================================================================
