---------------------------- MODULE MCTerminal -----------------------------
(* A command that announces every step just before it takes it, and may be
   stopped by a failing request.  TLC checks that the rule of Terminal accepts
   every run of it, that an announcement is never more than one step ahead, and
   that the rule refuses falsified announcements.  Every plan is emitted. *)
EXTENDS Terminal, TLC, Json
CONSTANTS Cmds, Cands, Spots, Outs, Times
VARIABLES cmd, ex, n, verbose, out, flt, ms, pos, said, ev, log, st
vars == <<cmd, ex, n, verbose, out, flt, ms, pos, said, ev, log, st>>
plan == <<cmd, ex, n, verbose, out, flt, ms>>

Name(i) == "i" \o ToString(i)
Plan == IF cmd = "pi" THEN FlattenSeq([i \in 1..3 |-> <<A("half", "", i), A("half", "", i)>>])
        ELSE IF cmd = "jaeger" THEN [i \in 1..3 |-> A("find", "", i)]
        ELSE IF ~ex THEN <<>>
        ELSE <<A("exec", "", 0)>> \o FlattenSeq([i \in 1..n |-> <<A("create", Name(i), 0), A("exec", "", 0), A("drop", Name(i), 0)>>])
Kind(k) == IF k \in {"find", "half"} THEN "get" ELSE k
Init == /\ cmd \in Cmds /\ verbose \in BOOLEAN
        /\ out \in (IF cmd = "pi" THEN Outs \ {"none"} ELSE Outs)
        /\ ex \in (IF cmd \in {"pi", "jaeger"} THEN {FALSE} ELSE BOOLEAN)
        /\ n \in (IF cmd \in {"pi", "jaeger"} THEN {0} ELSE Cands)
        /\ ms \in (IF ex THEN [1..(n + 1) -> Times] ELSE {<<>>})
        /\ flt \in {0} \cup (Spots \cap (1..Len(Plan)))
        /\ (out \in {"noparent", "dir"} => flt = 0)
        /\ (flt # 0 /\ ex => \A i \in DOMAIN ms : ms[i] = Min(Times))
        /\ pos = 1 /\ said = FALSE /\ ev = <<>> /\ st = "run"
        /\ log = IF ex THEN <<A("start", "", 0)>> ELSE <<>>
(* a second request of the same half day is not announced again *)
Again == pos > 1 /\ cmd = "pi" /\ Plan[pos] = Plan[pos - 1]
Announce == st = "run" /\ pos <= Len(Plan) /\ ~said /\ said' = TRUE
            /\ log' = (IF Again THEN log ELSE Append(log, A(Kind(Plan[pos].k), Plan[pos].name, Plan[pos].at)))
            /\ UNCHANGED <<plan, pos, ev, st>>
Take == st = "run" /\ pos <= Len(Plan) /\ said /\ said' = FALSE /\ ev' = Append(ev, Plan[pos])
        /\ log' = log /\ pos' = (IF pos = flt THEN pos ELSE pos + 1) /\ UNCHANGED plan
        /\ st' = (IF pos # flt THEN st ELSE IF ex /\ Plan[pos].k = "exec" /\ pos > 1 THEN "clean" ELSE "failed")
(* the index is dropped although its measurement failed *)
Clean == st = "clean" /\ st' = "failed" /\ UNCHANGED <<plan, pos, said>>
         /\ log' = Append(log, A("drop", Plan[pos + 1].name, 0)) /\ ev' = Append(ev, A("drop", Plan[pos + 1].name, 0))
Finish == st = "run" /\ pos = Len(Plan) + 1 /\ st' = (IF out \in {"noparent", "dir"} THEN "failed" ELSE "done") /\ UNCHANGED <<plan, pos, said, ev, log>>
Next == Announce \/ Take \/ Clean \/ Finish
Spec == Init /\ [][Next]_vars

Cs == [i \in 1..n |-> [table |-> IF i = 2 THEN "t" ELSE "u", cols |-> <<Name(i)>>]]
Round(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
Row(i) == [ms |-> ms[i + 1], red |-> IF ms[1] = 0 THEN 0 ELSE Round(1000 * (ms[1] - ms[i + 1]), ms[1]), cols |-> Cs[i].cols]
Rows(t) == SortSeq(SelectSeq([i \in 1..n |-> i], LAMBDA i : Cs[i].table = t), LAMBDA i, j : ms[i + 1] < ms[j + 1])
Tabs == SelectSeq(<<"u", "t">>, LAMBDA t : Rows(t) # <<>>)
Done == st = "done"
Measured == pos = Len(Plan) + 1
Wrote == Done /\ out # "none"
Seen == [panic |-> FALSE, verbose |-> verbose, debug |-> verbose, exit |-> IF Done THEN 0 ELSE 1, jaeger |-> cmd = "jaeger", suggest |-> cmd \notin {"jaeger", "pi"}, examine |-> ex,
         ev |-> ev, log |-> log, file |-> IF Wrote THEN "written" ELSE "absent", paths |-> IF Wrote THEN <<TRUE>> ELSE <<>>,
         period |-> IF cmd = "jaeger" THEN "right" ELSE "none", hasrep |-> Wrote,
         said |-> IF ~verbose \/ cmd = "pi" THEN {} ELSE IF cmd = "jaeger" THEN {"slow"} ELSE (IF n = 0 THEN {"nocands"} ELSE {"cands"}) \cup (IF ex /\ Measured THEN {"exam"} ELSE {}),
         cands |-> Cs, rep |-> Cs,
         exam |-> IF ~ex \/ ~Measured THEN [orig |-> 0, tabs |-> <<>>] ELSE [orig |-> ms[1], tabs |-> [k \in DOMAIN Tabs |-> [table |-> Tabs[k], rows |-> [j \in DOMAIN Rows(Tabs[k]) |-> Row(Rows(Tabs[k])[j])]]]],
         repexam |-> IF ~ex \/ ~Wrote THEN [has |-> FALSE, orig |-> 0, res |-> <<>>] ELSE [has |-> TRUE, orig |-> ms[1], res |-> [i \in 1..n |-> [table |-> Cs[i].table, cols |-> Cs[i].cols, ms |-> ms[i + 1]]]],
         took |-> IF ~ex \/ ~Measured THEN [orig |-> 0, res |-> <<>>] ELSE [orig |-> ms[1], res |-> [i \in 1..n |-> [table |-> Cs[i].table, cols |-> Cs[i].cols, lo |-> ms[i + 1]]]],
         slow |-> <<>>, repslow |-> <<>>]
Ended == st \in {"failed", "done"}
Accepted == Ended => Rule(Seen) = {}
OneAhead == LET L == Steps(log) E == Expected(ev) IN IsPrefix(E, L) /\ Len(L) <= Len(E) + 1
Sharp == Ended =>
  /\ log # <<>> => Rule([Seen EXCEPT !.log = Tail(@)]) # {} /\ Rule([Seen EXCEPT !.log = @ \o <<@[Len(@)]>>]) # {}
  /\ Rule([Seen EXCEPT !.paths = IF @ = <<>> THEN <<TRUE>> ELSE <<>>]) # {}
  /\ Wrote => Rule([Seen EXCEPT !.paths = <<FALSE>>]) # {}
  /\ verbose /\ cmd \notin {"pi"} => Rule([Seen EXCEPT !.verbose = FALSE]) # {}
  /\ Wrote /\ verbose /\ Seen.suggest /\ n > 0 => Rule([Seen EXCEPT !.cands = Tail(@)]) # {}
  /\ Wrote /\ verbose /\ ex => Rule([Seen EXCEPT !.exam.orig = @ + 1]) # {}
  /\ Measured /\ verbose /\ ex /\ n > 0 => Rule([Seen EXCEPT !.exam.tabs[1].rows = <<>>]) # {} /\ Rule([Seen EXCEPT !.exam.tabs[1].rows[1].ms = -1]) # {}
  /\ Wrote /\ verbose /\ ex /\ n > 0 /\ ms[1] > 0 => Rule([Seen EXCEPT !.exam.tabs[1].rows[1].red = @ + 20]) # {}
Emit == pos = 1 /\ ~said /\ st = "run" => PrintT(<<"TERM", ToJson([cmd |-> cmd, ex |-> ex, n |-> n, v |-> verbose, out |-> out, ms |-> ms,
          flt |-> IF flt = 0 THEN [k |-> "", nth |-> 0] ELSE [k |-> Plan[flt].k, nth |-> Cardinality({q \in 1..flt : Plan[q].k = Plan[flt].k})]])>>)
=============================================================================
