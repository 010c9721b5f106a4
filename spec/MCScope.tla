------------------------------ MODULE MCScope ------------------------------
(* Small universe of queries, built clause by clause. Every complete query is
   emitted for replay into the real analyser; the lemmas are properties of the
   specification itself. *)
EXTENDS Scope, TLC, Json
CONSTANTS Dialect, MaxFrom, MaxRefs, Deep

Sch == [users |-> [cols |-> <<"id", "name", "age">>, pk |-> <<"id">>],
        todos |-> [cols |-> <<"id", "user_id", "name">>, pk |-> <<"id">>]]
Rank == [users |-> 7, todos |-> 5, id |-> 3, name |-> 4, age |-> 1, user_id |-> 6, n2 |-> 8]
Opq == Dialect = "mysql"

E0 == [refs |-> <<>>, subs |-> <<>>, plain |-> FALSE]
R(q, c) == [q |-> q, c |-> c]
Col(q, c) == [refs |-> <<R(q, c)>>, subs |-> <<>>, plain |-> TRUE]
Cond(rs) == [refs |-> rs, subs |-> <<>>, plain |-> FALSE]
SelE(e, a) == [k |-> "e", e |-> e, as |-> a]
Star == [k |-> "*", q |-> ""]
Tab(n, a) == [k |-> "b", name |-> n, as |-> a, lat |-> FALSE, conds |-> <<>>]
Der(s, a, l) == [k |-> "d", sub |-> s, as |-> a, lat |-> l, conds |-> <<>>]
On(lo, e) == [lo |-> lo, e |-> e, using |-> <<>>]
Q0 == [sel |-> <<>>, from |-> <<>>, where |-> E0, grp |-> <<>>, hav |-> E0, ord |-> <<>>]

Derived == <<
  [Q0 EXCEPT !.sel = <<SelE(Col("", "id"), ""), SelE(Col("", "name"), "n2")>>, !.from = <<Tab("todos", "")>>],
  [Q0 EXCEPT !.sel = <<SelE(Col("users", "user_id"), "id")>>, !.from = <<Tab("todos", "users")>>, !.where = Cond(<<R("", "name")>>)],
  [Q0 EXCEPT !.sel = <<Star>>, !.from = <<Tab("users", "x")>>, !.where = Cond(<<R("x", "age")>>)],
  [Q0 EXCEPT !.sel = <<SelE(Cond(<<R("a", "age"), R("b", "user_id")>>), "name"), SelE(Col("b", "id"), "")>>,
             !.from = <<Tab("users", "a"), [Tab("todos", "b") EXCEPT !.conds = <<On(1, Cond(<<R("a", "id"), R("", "user_id")>>))>>]>>]>>

(* correlated: the outer alias is the first table of the outer query *)
Lateral(o, c) == [Q0 EXCEPT !.sel = <<SelE(Col("todos", "name"), "n2")>>, !.from = <<Tab("todos", "")>>,
                            !.where = Cond(<<R("", "user_id"), R(o, c)>>)]
ExprSubs(o, c) == <<
  [Q0 EXCEPT !.sel = <<SelE(Col("", "user_id"), "")>>, !.from = <<Tab("todos", "")>>, !.where = Cond(<<R("", "name")>>)],
  [Q0 EXCEPT !.sel = <<SelE(E0, "")>>, !.from = <<Tab("todos", "i")>>, !.where = Cond(<<R("i", "user_id"), R(o, c)>>)],
  [Q0 EXCEPT !.sel = <<SelE(Col("i", "age"), "")>>, !.from = <<Tab("users", "i")>>, !.ord = <<Col("", "name")>>]>>

VARIABLES q, ph, n
vars == <<q, ph, n>>

Frame == AnFrom(Sch, Opq, q.from, <<>>).fr
Env == <<Frame>>
AliasOf(it) == IF it.as # "" THEN it.as ELSE it.name
Aliases == {AliasOf(it) : it \in Items(q.from)}
Names == {"id", "name", "age", "user_id", "n2"}
Refs == {r \in {R(a, c) : a \in Aliases \cup {""}, c \in Names} : Unambiguous(Env, r)}

Init == q = Q0 /\ ph = "from" /\ n = 0
AddBase == /\ ph = "from" /\ Len(q.from) < MaxFrom
           /\ \E t \in DOMAIN Sch, a \in {"", "x", "todos"} :
                LET it == Tab(t, IF a = t THEN "" ELSE a)
                IN /\ AliasOf(it) \notin Aliases
                   /\ q' = [q EXCEPT !.from = Append(@, it)]
           /\ UNCHANGED <<ph, n>>
AddDerived == /\ Deep /\ ph = "from" /\ Len(q.from) < MaxFrom
              /\ \/ \E k \in DOMAIN Derived : q' = [q EXCEPT !.from = Append(@, Der(Derived[k], IF Len(q.from) = 0 THEN "d" ELSE "users", FALSE))]
                 \/ /\ Len(q.from) > 0
                    /\ \E a \in Aliases : \E c \in {"id", "name"} :
                         /\ Unambiguous(Env, R(a, c))
                         /\ q' = [q EXCEPT !.from = Append(@, Der(Lateral(a, c), "l", TRUE))]
              /\ AliasOf(Last(q'.from)) \notin Aliases
              /\ UNCHANGED <<ph, n>>
Close == /\ ph = "from" /\ Len(q.from) > 0 /\ ph' = "refs" /\ UNCHANGED <<q, n>>
AddSel == \E r \in Refs : \E a \in {"", "name"} : q' = [q EXCEPT !.sel = Append(@, SelE(Col(r.q, r.c), a))]
AddWhere == \E r \in Refs : q' = [q EXCEPT !.where = Cond(Append(@.refs, r))]
AddOn == /\ Len(q.from) = 2 /\ q.from[2].k # "f"
         /\ \E r \in Refs : q' = [q EXCEPT !.from[2].conds = <<On(1, Cond(IF @ = <<>> THEN <<r>> ELSE Append(@[1].e.refs, r)))>>]
AddOrd == \E r \in Refs : q' = [q EXCEPT !.ord = Append(@, Col(r.q, r.c))]
AddFn == /\ Deep /\ \A it \in Items(q.from) : it.k # "f"
         /\ \E r \in Refs : q' = [q EXCEPT !.from = Append(@, [k |-> "f", as |-> "fn_1", lat |-> TRUE, conds |-> <<>>, e |-> Col(r.q, r.c)])]
AddSub == /\ q.where.subs = <<>>
          /\ \E a \in Aliases : Unambiguous(Env, R(a, "id")) /\
               \E s \in Items(ExprSubs(a, "id")) : q' = [q EXCEPT !.where = [@ EXCEPT !.subs = <<s>>]]
AddRef == ph = "refs" /\ n < MaxRefs /\ n' = n + 1 /\ ph' = ph /\ (AddSel \/ AddWhere \/ AddOn \/ AddOrd \/ AddSub \/ AddFn)
Finish == /\ ph = "refs" /\ ph' = "done" /\ n' = n
          /\ q' = IF q.sel = <<>> THEN [q EXCEPT !.sel = <<Star>>] ELSE q
Next == AddBase \/ AddDerived \/ Close \/ AddRef \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- lemmas ---------------------------------------------------------------- *)
RECURSIVE Reads(_)
Reads(s) == UNION {IF it.k = "b" THEN {it.name} ELSE IF it.k = "f" THEN {} ELSE Reads(it.sub) : it \in Items(s.from)}
            \cup UNION {Reads(x) : x \in Items(s.where.subs)}
Lemmas == ph = "done" =>
  LET u == Uses(Sch, Opq, q)
      c == AllCandidates(Sch, Opq, q, Rank)
  IN /\ {b.t : b \in u.c \cup u.r} \subseteq Reads(q)
     /\ Pairs(c) \subseteq u.c \cup u.r
     /\ RestLast(u, c)
     /\ \A b \in u.c : b \in Leaders(c) \/ \A x \in c : x.t = b.t => FALSE
                       \/ (CondCols(u, b.t) \ Items(Sch[b.t].pk) = {})
     /\ \A x \in c : ~(Items(x.cols) \subseteq Items(Sch[x.t].pk))
     /\ \A x \in c : Cardinality(Items(x.cols)) = Len(x.cols)
(* ORDER BY never decides whether a column is a condition *)
Emit == ph = "done" => PrintT(<<"QRY", ToJson([sch |-> Sch, q |-> q])>>)
=============================================================================
