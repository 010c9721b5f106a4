------------------------------- MODULE JPlan -------------------------------
(* Judges recorded runs: what the database printed against what the report
   shows.
     lines   what was printed: MySQL [d, t], PostgreSQL [k, ind, t]; t is the
             number of the text of the line
     nodes   the report's tree in preorder: [text |-> seq of text numbers,
             parent, fig |-> figures, tab |-> table]
     figs    per line the printed figures (strings, "" = not printed)
     tabs    per line the table its own text names ("" none, "?" not judged) *)
EXTENDS Plan, TLC, Json
CONSTANTS Buckets, Prop
ASSUME Prop \in {"C11", "C12", "C13"}
Recs == ndJsonDeserialize("recs.ndjson")
N == Len(Recs)

Texts(ns) == [k \in DOMAIN ns |-> ns[k].text]
Parents(ns) == [k \in DOMAIN ns |-> ns[k].parent]

MyWhy(r) ==
  LET d == [k \in DOMAIN r.lines |-> r.lines[k].d]
  IN IF r.panic THEN "crashed"
     ELSE IF ~MyValid(d)
     THEN IF r.exit = 0 \/ r.report THEN "a plan whose indentation skips a level is accepted" ELSE ""
     ELSE IF r.exit # 0 \/ ~r.report THEN "a regular plan is refused"
     ELSE IF Texts(r.nodes) # [k \in DOMAIN d |-> <<r.lines[k].t>>] THEN "a plan line is lost, repeated, changed or out of order"
     ELSE IF Parents(r.nodes) # MyTree(d) THEN "a plan line hangs below the wrong line"
     ELSE ""

PgWhy(r) ==
  LET gs == PgGroups(r.lines)
      T(g) == [k \in DOMAIN g |-> r.lines[g[k]].t]
  IN IF r.panic THEN "crashed"
     ELSE IF r.exit # 0 \/ ~r.report THEN "a regular plan is refused"
     ELSE IF Texts(r.nodes) # [g \in DOMAIN gs |-> T(gs[g])] THEN "a plan line is lost, repeated, changed, out of order or at the wrong node"
     ELSE IF Parents(r.nodes) # PgTree(r.lines) THEN "a node hangs below the wrong node"
     ELSE IF r.summary # T(PgSummary(r.lines)) THEN "the summary differs from the lines after the plan"
     ELSE ""

(* a node's own line: the one of kind "node" in its group *)
Own(ls, g) == CHOOSE x \in {g[k] : k \in DOMAIN g} : ls[x].k = "node"
Figures(r) ==
  IF r.mode = "mysql" THEN [k \in DOMAIN r.lines |-> k]
  ELSE LET gs == PgGroups(r.lines) IN [g \in DOMAIN gs |-> Own(r.lines, gs[g])]
FigWhy(r) ==
  LET own == Figures(r)
      bad == {k \in DOMAIN own : r.nodes[k].fig # r.figs[own[k]]}
      badt == {k \in DOMAIN own : r.tabs[own[k]] # "?" /\ r.nodes[k].tab # r.tabs[own[k]]}
  IN IF r.panic THEN "crashed"
     ELSE IF r.exit # 0 \/ ~r.report THEN "a regular plan is refused"
     ELSE IF Len(r.nodes) # Len(own) THEN "the number of nodes differs"
     ELSE IF bad # {} THEN "the figures of node " \o ToString(Min(bad)) \o " are " \o ToString(r.nodes[Min(bad)].fig) \o ", printed were " \o ToString(r.figs[own[Min(bad)]])
     ELSE IF badt # {} THEN "the table of node " \o ToString(Min(badt)) \o " is " \o r.nodes[Min(badt)].tab \o ", printed was " \o r.tabs[own[Min(badt)]]
     ELSE ""

Why(r) == IF Prop = "C11" THEN MyWhy(r) ELSE IF Prop = "C12" THEN PgWhy(r) ELSE FigWhy(r)

VARIABLES b, i
Init == b \in 1..Buckets /\ i = 0
Next == /\ i * Buckets + b <= N
        /\ i' = i + 1 /\ b' = b
        /\ LET r == Recs[i * Buckets + b]
               w == Why(r)
           IN w # "" => PrintT(<<"REJECT", r.id, w>>)
Spec == Init /\ [][Next]_<<b, i>>
=============================================================================
