------------------------------ MODULE MCPlan ------------------------------
(* The stack machine that reads plan lines one by one, next to the declarative
   tree of Plan. All depth sequences up to MaxLen (MySQL) and all sequences of
   PostgreSQL lines up to MaxLen are explored; every finished one is emitted
   and replayed into gr. *)
EXTENDS Plan, TLC, Json
CONSTANTS Mode, MaxLen, MaxDepth
VARIABLES ls, stack, par, done, bad
vars == <<ls, stack, par, done, bad>>

(* stack: sequence of node numbers, bottom first; par: parents chosen so far *)
Init == ls = <<>> /\ stack = <<>> /\ par = <<>> /\ done = FALSE /\ bad = FALSE

Lt(st, f(_), x) == SelectSeq(st, LAMBDA n : f(n) < x)

ReadMy(dep) ==
  /\ ls' = Append(ls, dep)
  /\ IF dep > Len(stack)
     THEN bad' = TRUE /\ UNCHANGED <<stack, par>>
     ELSE LET st == SubSeq(stack, 1, dep)
          IN /\ par' = Append(par, IF st = <<>> THEN 0 ELSE Last(st))
             /\ stack' = Append(st, Len(ls) + 1)
             /\ UNCHANGED bad
NextMy == \E dep \in 0..MaxDepth : ReadMy(dep)

Kinds == {"node", "info", "cont", "head", "sum"}
ReadPg(k, ind) ==
  LET l == [k |-> k, ind |-> ind]
      ls2 == Append(ls, l)
      insum == \E i \in DOMAIN ls : ls[i].k = "sum"
      opens == k # "sum" /\ ~insum /\ Starts(ls2, Len(ls2))
      IndOf(g) == PgInd(ls)[g]
      st == Lt(stack, IndOf, ind)
  IN /\ ls' = ls2
     /\ IF opens
        THEN /\ par' = Append(par, IF st = <<>> THEN 0 ELSE Last(st))
             /\ stack' = Append(st, Len(par) + 1)
        ELSE UNCHANGED <<stack, par>>
     /\ UNCHANGED bad
NextPg == \E k \in Kinds, ind \in 0..MaxDepth :
            /\ ls = <<>> => k = "node" /\ ind = 0
            /\ k = "cont" => ls # <<>> /\ Last(ls).k \in {"info", "cont"}
            /\ k \in {"info", "cont", "sum"} => ind = 0   \* their indentation does not matter
            /\ k \in {"node", "head"} => (ls # <<>> => ind > 0)
            /\ (ls # <<>> /\ Last(ls).k = "head") => k = "node"
            /\ (ls # <<>> /\ Last(ls).k = "sum") => k = "sum"
            /\ ReadPg(k, ind)

Read == ~done /\ ~bad /\ Len(ls) < MaxLen /\ UNCHANGED done /\ (IF Mode = "mysql" THEN NextMy ELSE NextPg)
Finish == /\ ~done /\ Len(ls) > 0 /\ (Mode = "pg" => Last(ls).k # "head")
          /\ done' = TRUE /\ UNCHANGED <<ls, stack, par, bad>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars

Machine ==
  IF Mode = "mysql"
  THEN /\ bad <=> ~MyValid(ls)
       /\ ~bad => par = MyTree(ls) /\ IsForest(par)
  ELSE (ls # <<>> /\ Last(ls).k # "head") =>
       /\ PgValid(ls)
       /\ par = PgTree(ls) /\ IsForest(par)
       (* every line is in exactly one group, or in the summary *)
       /\ FlattenSeq(PgGroups(ls)) \o PgSummary(ls) = [i \in DOMAIN ls |-> i]
Emit == done => PrintT(<<"PLAN", ToJson([mode |-> Mode, ls |-> ls, bad |-> bad])>>)
=============================================================================
