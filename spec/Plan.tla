------------------------------- MODULE Plan -------------------------------
(* How the lines of an EXPLAIN ANALYZE output form a tree.

   MySQL: every line is a node; d[i] is its nesting depth.
   PostgreSQL: a line is [k, ind] with k one of
     "node"  a plan node ("->  Seq Scan ...", or the first line)
     "info"  a detail of the node above ("Filter: ...")
     "cont"  the rest of a detail whose text contains a line break
     "head"  a heading ("InitPlan 1 ...", "CTE x") which belongs to the node
             printed right below it
     "sum"   summary; from the first such line on everything is summary *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

MaxOr0(S) == IF S = {} THEN 0 ELSE Max(S)

(* ---- MySQL: declarative ------------------------------------------------ *)
MyValid(d) == \A i \in DOMAIN d : d[i] <= (IF i = 1 THEN 0 ELSE d[i - 1] + 1)
MyParent(d, i) == MaxOr0({j \in 1..(i - 1) : d[j] = d[i] - 1})
MyTree(d) == [i \in DOMAIN d |-> MyParent(d, i)]

(* ---- PostgreSQL: declarative -------------------------------------------- *)
PlanLen(ls) == LET s == {i \in DOMAIN ls : ls[i].k = "sum"} IN IF s = {} THEN Len(ls) ELSE Min(s) - 1
PgPlan(ls) == SubSeq(ls, 1, PlanLen(ls))
PgSummary(ls) == [i \in 1..(Len(ls) - PlanLen(ls)) |-> PlanLen(ls) + i]
Starts(ls, i) == \/ ls[i].k = "head"
                 \/ ls[i].k = "node" /\ (i = 1 \/ ls[i - 1].k # "head")
(* the groups, each the sequence of its line numbers *)
GroupStarts(ls) == SetToSortSeq({i \in 1..PlanLen(ls) : Starts(ls, i)}, LAMBDA a, b : a < b)
PgGroups(ls) ==
  LET st == GroupStarts(ls)
  IN [g \in DOMAIN st |->
        LET to == IF g = Len(st) THEN PlanLen(ls) ELSE st[g + 1] - 1
        IN [i \in 1..(to - st[g] + 1) |-> st[g] + i - 1]]
PgInd(ls) == LET st == GroupStarts(ls) IN [g \in DOMAIN st |-> ls[st[g]].ind]
PgTree(ls) == LET ind == PgInd(ls) IN [g \in DOMAIN ind |-> MaxOr0({j \in 1..(g - 1) : ind[j] < ind[g]})]
(* the shape PostgreSQL prints: begins with a node, and a heading is followed by its node *)
PgValid(ls) ==
  /\ Len(ls) > 0 /\ ls[1].k = "node"
  /\ \A i \in 1..PlanLen(ls) : ls[i].k = "head" => i < PlanLen(ls) /\ ls[i + 1].k = "node"

(* ---- the trees are trees ------------------------------------------------- *)
IsForest(p) == \A i \in DOMAIN p : p[i] < i
=============================================================================
