------------------------------ MODULE Timeline -------------------------------
(* The timeline of a plan as the report draws it, and the text beside it (C28).
   A node is [text, avg, loops, cost, kids]; avg and cost in units of 0.0001 ms
   (or of cost), -1 where the plan has no such figure.  A bar is [s, e]. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Or0(x) == Max2(x, 0)

(* what the node's own figures say about its end *)
OwnEnd(d, n, start) ==
  IF d = "hasura" THEN Or0(n.cost)
  ELSE IF d = "mysql" /\ n.loops > 1
  THEN start + (IF n.loops > 1000 /\ n.avg = 0 THEN n.loops ELSE Or0(n.avg) * n.loops)
  ELSE Or0(n.avg)

RECURSIVE Bars(_, _)
(* bars of the nodes of a forest in the order of the text *)
Bar(d, n) ==
  LET below == Bars(d, n.kids)
      tops == {below[k].e : k \in {j \in DOMAIN below : below[j].top}}
      start == IF tops = {} THEN 0 ELSE CHOOSE e \in tops : \A f \in tops : f <= e
      end == Max2(OwnEnd(d, n, start), start)
  IN <<[s |-> Min2(start, end - 1), e |-> end, start |-> start, top |-> TRUE, text |-> n.text, title |-> n.title, fig |-> n.fig]>>
     \o [k \in DOMAIN below |-> [below[k] EXCEPT !.top = FALSE]]
Bars(d, ns) == FlattenSeq([k \in 1..Len(ns) |-> Bar(d, ns[k])])

(* what the figures beside a bar are called, by the kind of report *)
Figures(d) == IF d = "mysql" THEN {"Cost (estimated)", "Rows returned (estimated)", "Time first row (actual)", "Rows returned (actual)", "Loop count (actual)", "Table"}
              ELSE IF d = "postgres" THEN {"Initial cost (estimated)", "Cost (estimated)", "Rows returned (estimated)", "Width (estimated)", "Time (actual)", "Rows returned (actual)", "Loop count (actual)", "Table"}
              ELSE {"Initial cost (estimated)", "Cost (estimated)", "Rows returned (estimated)", "Width (estimated)", "Table"}

(* r: d, nodes, lines (texts before the separator), trail, bars [s, e, goal], hovers [k, bold], labels, tips *)
TimelineRule(r) ==
  LET b == Bars(r.d, r.nodes)
      N == Len(b)
  IN (IF r.crash = "" THEN {} ELSE {"the page crashes"})
     \cup (IF r.lines = [k \in 1..N |-> b[k].text] THEN {} ELSE {"the text is not that of the plan"})
     \cup (IF r.trail = r.summary THEN {} ELSE {"the summary is not that of the plan"})
     \cup (IF Len(r.bars) = N THEN {} ELSE {"not one bar for each node"})
     \cup (IF \A k \in 1..Min2(N, Len(r.bars)) : r.bars[k].s = b[k].s /\ r.bars[k].e = b[k].e /\ r.bars[k].goal = b[k].e
           THEN {} ELSE {"a bar begins or ends at a wrong time"})
     \cup (IF \A i \in DOMAIN r.labels : r.labels[i].k \in 1..N /\ r.labels[i].title = b[r.labels[i].k].title
           THEN {} ELSE {"a bar has the name of another node"})
     \cup (IF \A i \in DOMAIN r.hovers : r.hovers[i].bold = <<r.hovers[i].k>> THEN {} ELSE {"pointing at a bar does not mark its line alone"})
     \cup (IF \A i \in DOMAIN r.tips : r.tips[i].k \in 1..N /\ \A f \in Figures(r.d) :
                f \in DOMAIN r.tips[i].shown /\ r.tips[i].shown[f] = b[r.tips[i].k].fig[f]
           THEN {} ELSE {"a bar shows figures the node does not have"})
=============================================================================
