------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Properties of one run of a suggest command, stated on its history: the  *)
(* sequence of statements that reached the server.                         *)
(*                                                                         *)
(* A statement is a record                                                 *)
(*   k     kind: connect explain columns indexes catalog exec create drop  *)
(*         other                                                           *)
(*   same  the text is the user's query (exec, explain)                    *)
(*   an    the EXPLAIN executes the query (ANALYZE)                        *)
(*   ro    another statement known to be read-only                         *)
(*   name, table, cols   the index a create or drop names                  *)
(*   res   "ok", "err" or "lost" (the connection broke before an answer)   *)
(*   live  the set of temporary indexes [table, name] in existence when    *)
(*         the statement began                                             *)
(*   t0, t1   server clock, microseconds                                   *)
(*                                                                         *)
(* The same operators are invariants of the model (MCExamine) and the      *)
(* judges of the histories recorded from the real program (JExamine).      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}

(* connects are not statements of the command *)
Stmts(h) == SelectSeq(h, LAMBDA e : e.k # "connect")

SameStmt(a, b) == a.k = b.k /\ a.name = b.name /\ a.table = b.table /\ a.cols = b.cols

(* A statement whose connection broke may be sent again by the database    *)
(* driver; the broken attempt is then not a statement of its own.          *)
Retried(h, i) == /\ h[i].res = "lost" /\ i < Len(h) /\ SameStmt(h[i], h[i+1])

Settled(h) ==
  LET s == Stmts(h)
      F[i \in 0..Len(s)] == IF i = 0 THEN <<>>
                            ELSE IF Retried(s, i) THEN F[i-1] ELSE Append(F[i-1], s[i])
  IN F[Len(s)]

IdxOf(e) == [table |-> e.table, name |-> e.name]

(* --------------------------------------------------------------------- C01 *)
(* Every acknowledged creation is followed by a drop of that same index.    *)
DropOf(be, c, d) == d.k = "drop" /\ d.name = c.name /\ (be = "mysql" => d.table = c.table)

EveryIndexDropped(be, h) ==
  \A i \in DOMAIN h : (h[i].k = "create" /\ h[i].res = "ok")
     => \E j \in DOMAIN h : j > i /\ DropOf(be, h[i], h[j])

(* What is left on the server at the end was either never acknowledged, or  *)
(* the server did not carry out its drop.                                   *)
NothingLeft(be, h, left) ==
  \A x \in left :
     LET cs == {i \in DOMAIN h : h[i].k = "create" /\ IdxOf(h[i]) = x}
         last == CHOOSE i \in cs : \A j \in cs : j <= i
     IN cs # {} /\ h[last].res = "ok" =>
          \E j \in DOMAIN h : j > last /\ DropOf(be, h[last], h[j]) /\ h[j].res # "ok"

C01(be, h, left) == EveryIndexDropped(be, h) /\ NothingLeft(be, h, left)

(* --------------------------------------------------------------------- C02 *)
Creates(h) == {i \in DOMAIN h : h[i].k = "create"}
OkCreates(h) == {i \in DOMAIN h : h[i].k = "create" /\ h[i].res = "ok"}
Execs(h) == {i \in DOMAIN h : h[i].k = "exec"}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* s is a settled history *)
FirstRunBare(s) ==
  \A i \in Creates(s) : \E j \in Execs(s) : j < i /\ s[j].live = {}

RunWithOwnIndex(s) ==
  \A i \in Execs(s) :
     LET before == {j \in OkCreates(s) : j < i}
     IN IF before = {} THEN s[i].live = {}
        ELSE s[i].live = {IdxOf(s[MaxOf(before)])}

(* exactly one measurement between a creation and the next creation or the end;
   exactly one before the first creation *)
OneRunPerIndex(s) ==
  LET marks == Creates(s)
      Seg(a, b) == {j \in Execs(s) : j > a /\ j < b}
      NextMark(a) == LET m == {x \in marks : x > a}
                     IN IF m = {} THEN Len(s) + 1 ELSE CHOOSE x \in m : \A y \in m : x <= y
  IN /\ Cardinality(Seg(0, NextMark(0))) <= 1
     /\ \A a \in marks : Cardinality(Seg(a, NextMark(a))) <= 1
     /\ \A a \in marks : s[a].res = "ok" /\ NextMark(a) <= Len(s) => Cardinality(Seg(a, NextMark(a))) = 1

NeverTwo(h) == \A i \in DOMAIN h : Cardinality(h[i].live) <= 1
               /\ (h[i].k = "create" => h[i].live = {} \/ h[i].live = {IdxOf(h[i])})

(* dropped after its run, before the next creation *)
DropsOnlyOwn(be, h) ==
  \A j \in DOMAIN h : h[j].k = "drop" =>
     \E i \in DOMAIN h : i < j /\ h[i].k = "create" /\ DropOf(be, h[i], h[j])

DropAfterRun(s) ==
  \A j \in DOMAIN s : s[j].k = "drop" =>
     LET c == {i \in OkCreates(s) : i < j /\ s[i].name = s[j].name}
     IN c # {} => \E e \in Execs(s) : e > MaxOf(c) /\ e < j

C02(be, h) ==
  LET s == Settled(h)
  IN FirstRunBare(s) /\ RunWithOwnIndex(s) /\ OneRunPerIndex(s) /\ NeverTwo(s)
     /\ DropsOnlyOwn(be, s) /\ DropAfterRun(s)

(* a successful examination measured everything it created, and first bare *)
C02Success(h) ==
  LET s == Settled(h) IN Cardinality(Execs(s)) = 1 + Cardinality(Creates(s))

(* --------------------------------------------------------------------- C03 *)
ExamFailed(h) ==
  LET s == Settled(h) IN \E i \in DOMAIN s : s[i].k \in {"exec", "create", "drop"} /\ s[i].res # "ok"

NoReportWhenFailed(h, exit, out) == ExamFailed(h) => (exit # 0 /\ out # "written")

(* a report of an examination: original time and one result per examined
   index, in order, each with the time of the run made with that index.
   The reported milliseconds lie between the time the server spent and the
   time between the neighbouring statements.                              *)
TimeOK(s, i, ms, texit) ==
  LET lo == (s[i].t1 - s[i].t0) \div 1000
      prevs == {j \in DOMAIN s : j < i}
      from == IF prevs = {} THEN 0 ELSE s[i-1].t1
      to   == IF i = Len(s) THEN texit ELSE s[i+1].t0
  IN ms + 1 >= lo /\ ms <= ((to - from) \div 1000) + 2

TruthfulReport(h, rep, texit) ==
  LET s == SelectSeq(Settled(h), LAMBDA e : e.k \in {"exec", "create", "drop"})
      cs == SelectSeq(s, LAMBDA e : e.k = "create")
      PosOfCreate(n) == CHOOSE i \in DOMAIN s : s[i].k = "create"
                            /\ Cardinality({j \in 1..i : s[j].k = "create"}) = n
      ExecAfter(i) == LET m == {j \in Execs(s) : j > i} IN CHOOSE x \in m : \A y \in m : x <= y
  IN /\ rep.has
     /\ Execs(s) # {}
     /\ s[1].k = "exec"
     /\ TimeOK(s, 1, rep.orig, texit)
     /\ Len(rep.res) = Len(cs)
     /\ \A n \in DOMAIN cs :
          /\ rep.res[n].table = cs[n].table
          /\ rep.res[n].cols = cs[n].cols
          /\ \E j \in Execs(s) : j > PosOfCreate(n)
          /\ TimeOK(s, ExecAfter(PosOfCreate(n)), rep.res[n].ms, texit)

(* --------------------------------------------------------------------- C04 *)
ReadOnlyStmt(e) == \/ e.k \in {"connect", "columns", "indexes", "catalog"}
                   \/ e.k = "explain" /\ e.same
                   \/ e.k = "other" /\ e.ro

OnlyAllowed(h, examine) ==
  \A i \in DOMAIN h :
     \/ ReadOnlyStmt(h[i])
     \/ examine /\ (h[i].k \in {"create", "drop"} \/ (h[i].k = "exec" /\ h[i].same))

(* with a text that is not one single SELECT nothing may be executed *)
NothingExecuted(h) ==
  \A i \in DOMAIN h : \/ h[i].k \in {"connect", "columns", "indexes", "catalog"}
                      \/ h[i].k = "other" /\ h[i].ro
                      \/ h[i].k = "explain" /\ ~h[i].an /\ ~h[i].multi

(* --------------------------------------------------------------------- C05 *)
(* want: the sequence of [table, cols] to be examined *)
ExaminedExactly(h, want, complete) ==
  LET s == SelectSeq(Settled(h), LAMBDA e : e.k = "create")
  IN /\ Len(s) <= Len(want)
     /\ complete => Len(s) = Len(want)
     /\ \A i \in DOMAIN s : s[i].table = want[i].table /\ s[i].cols = want[i].cols

RefusedUntouched(h, exit, out) ==
  exit # 0 /\ out # "written" /\ \A i \in DOMAIN h : h[i].k \notin {"create", "drop", "exec"}
=============================================================================
