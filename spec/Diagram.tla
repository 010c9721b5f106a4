------------------------------- MODULE Diagram -------------------------------
(* The lists of traces and the sequence diagram of a trace (C29).
   A span is [svc, kids]; a diagram is a sequence of
   [k |-> "call" | "act" | "deact", a, b, n]: n > 0 for "More n times". *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Call(a, b) == [k |-> "call", a |-> a, b |-> b, n |-> 0]
More(a, b, n) == [k |-> "call", a |-> a, b |-> b, n |-> n]
Act(a) == [k |-> "act", a |-> a, b |-> "", n |-> 0]
Deact(a) == [k |-> "deact", a |-> a, b |-> "", n |-> 0]

RECURSIVE Draw(_), DrawFrom(_, _)
(* the length of the run of equal leaf calls beginning at i *)
Run(ks, i) == LET same == {j \in i..Len(ks) : \A l \in i..j : ks[l].kids = <<>> /\ ks[l].svc = ks[i].svc} IN Cardinality(same)
DrawFrom(s, i) ==
  IF i > Len(s.kids) THEN <<>>
  ELSE LET c == s.kids[i] n == Run(s.kids, i) IN
  IF c.kids # <<>>
  THEN <<Call(s.svc, c.svc), Act(c.svc)>> \o Draw(c) \o <<Call(c.svc, s.svc), Deact(c.svc)>> \o DrawFrom(s, i + 1)
  ELSE IF n <= 4 THEN [j \in 1..n |-> Call(s.svc, c.svc)] \o DrawFrom(s, i + n)
  ELSE [j \in 1..3 |-> Call(s.svc, c.svc)] \o <<More(s.svc, c.svc, n - 3)>> \o DrawFrom(s, i + n)
Draw(s) == DrawFrom(s, 1)
Whole(root) == IF root.kids = <<>> THEN <<Call(root.svc, root.svc)>> ELSE Draw(root)

RECURSIVE Spans(_)
Spans(s) == 1 + FoldLeft(LAMBDA a, k : a + Spans(k), 0, s.kids)

SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in ToSet(a) \cup ToSet(b) : Len(SelectSeq(a, LAMBDA y : y = x)) = Len(SelectSeq(b, LAMBDA y : y = x))
(* r: traces [id, dur, cnt, svc, link] of a list, rows of the table in the same form *)
TableRule(r) ==
  (IF SameBag(r.rows, r.traces) THEN {} ELSE {"the list does not show the traces as they are"})
  \cup (IF \A i \in 1..(Len(r.rows) - 1) : r.rows[i].dur >= r.rows[i + 1].dur THEN {} ELSE {"the list is not sorted by duration"})
DiagramRule(r) == IF r.diagram = Whole(r.root) THEN {} ELSE {"the diagram does not show the calls of the trace"}
TraceRule(r) == IF r.crash # "" THEN {"the page crashes"} ELSE IF r.kind = "table" THEN TableRule(r) ELSE DiagramRule(r)
=============================================================================
