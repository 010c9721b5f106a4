----------------------------- MODULE Terminal ------------------------------
(* What gr tells on the terminal (C34).  A run is seen as
     ev      requests in order: k kind (create, exec, drop, find, half), name of the
             index, at start of the searched span (0 where there is none)
     log     announcements in order, of the same shape: k create, exec, drop, get, start
     debug   a line of the level debug is there
     said    which part of the result is told: cands, nocands, exam, slow
     cands   the listed candidates, rep the ones of the report: [table, cols]
     exam    the told result: orig, tabs: sequence of [table, rows: [ms, red, cols]]
             red is the told reduction in tenths of a percent
     repexam the result of the report: has, orig, res: [table, cols, ms]
     took    what the server measured at least: orig, res: [table, cols, lo]
     slow    the listed traces, repslow those of the report: [id, name, svc]
     period  "none", "right" or "wrong": the told period of the search
     paths   for every told place of the report: it is an absolute path of the file
     file    "written" if a report was written                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

A(k, name, at) == [k |-> k, name |-> name, at |-> at]
(* requests of one half day are announced once *)
RECURSIVE Undouble(_)
Undouble(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Undouble(Tail(s)) ELSE <<s[1]>> \o Undouble(Tail(s))
Expected(ev) ==
  LET one == SelectSeq(ev, LAMBDA e : e.k \in {"create", "drop", "exec", "find"})
      half == Undouble([i \in 1..Len(SelectSeq(ev, LAMBDA e : e.k = "half")) |-> SelectSeq(ev, LAMBDA e : e.k = "half")[i]])
  IN [i \in DOMAIN one |-> A(IF one[i].k = "find" THEN "get" ELSE one[i].k, one[i].name, one[i].at)]
     \o [i \in DOMAIN half |-> A("get", "", half[i].at)]
Steps(log) == SelectSeq(log, LAMBDA a : a.k # "start")
(* "Start examination" comes once, before everything the examination does *)
StartOk(log) == LET is == {i \in DOMAIN log : log[i].k = "start"}
                    xs == {i \in DOMAIN log : log[i].k \in {"create", "drop", "exec"}}
                IN IF xs = {} THEN Cardinality(is) <= 1 ELSE Cardinality(is) = 1 /\ Max(is) < Min(xs)

Abs(x) == IF x < 0 THEN -x ELSE x
(* red tenths of a percent are (1 - ms/orig) rounded *)
RedOk(red, ms, orig) == orig = 0 \/ 2 * Abs(red * orig - 1000 * (orig - ms)) <= orig
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i].ms <= s[i + 1].ms
Bag(s) == [x \in ToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
ToldExam(x) == FlattenSeq([i \in DOMAIN x.tabs |-> [j \in DOMAIN x.tabs[i].rows |->
                 [table |-> x.tabs[i].table, cols |-> x.tabs[i].rows[j].cols, ms |-> x.tabs[i].rows[j].ms]]])
ExamOk(r) ==
  /\ \A i \in DOMAIN r.exam.tabs : /\ Ascending(r.exam.tabs[i].rows)
                                   /\ \A j \in DOMAIN r.exam.tabs[i].rows : RedOk(r.exam.tabs[i].rows[j].red, r.exam.tabs[i].rows[j].ms, r.exam.orig)
  /\ \A i, j \in DOMAIN r.exam.tabs : i # j => r.exam.tabs[i].table # r.exam.tabs[j].table
  /\ r.exam.orig >= r.took.orig /\ Len(ToldExam(r.exam)) = Len(r.took.res)
  /\ \A x \in ToSet(ToldExam(r.exam)) : \E t \in ToSet(r.took.res) : t.table = x.table /\ t.cols = x.cols /\ t.lo <= x.ms
  /\ r.repexam.has => r.exam.orig = r.repexam.orig /\ Bag(ToldExam(r.exam)) = Bag(r.repexam.res)

Verbosely(r, what) == r.verbose /\ r.exit = 0 /\ what
Tell(w, cond, msg) == IF w /\ ~cond THEN {msg} ELSE {}
Rule(r) ==
  IF r.panic THEN {"crashed"} ELSE
  Tell(TRUE, Steps(r.log) = Expected(r.ev), "the announced steps are not the ones taken")
  \cup Tell(TRUE, StartOk(r.log), "the start of the examination is not announced once before it")
  \cup Tell(~r.verbose, ~r.debug /\ r.said = {}, "details are told though nobody asked for them")
  \cup Tell(TRUE, r.period # "wrong", "the announced period is another one")
  \cup Tell(r.jaeger /\ Len(r.ev) > 0, r.period = "right", "the period is not announced")
  \cup Tell(TRUE, Len(r.paths) = (IF r.file = "written" THEN 1 ELSE 0), "the place of the report is not told exactly when there is one")
  \cup Tell(TRUE, \A i \in DOMAIN r.paths : r.paths[i], "the told place is not where the report is")
  \cup Tell(r.suggest /\ Verbosely(r, r.hasrep), IF r.rep = <<>> THEN r.said \cap {"cands", "nocands"} = {"nocands"}
                                                 ELSE r.said \cap {"cands", "nocands"} = {"cands"} /\ r.cands = r.rep,
             "the listed candidates are not the ones of the report")
  \cup Tell(r.suggest /\ Verbosely(r, r.examine), "exam" \in r.said, "the result of the examination is not told")
  \cup Tell("exam" \in r.said, ExamOk(r), "the told result of the examination is not the measured one")
  \cup Tell("exam" \in r.said, r.exit = 0 \/ r.file # "written", "a result is told though the examination failed")
  \cup Tell(r.jaeger /\ Verbosely(r, r.hasrep), "slow" \in r.said /\ r.slow = r.repslow, "the listed traces are not the slow ones of the report")
=============================================================================
