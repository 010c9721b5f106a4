------------------------------- MODULE Scope -------------------------------
(* Which columns of which base tables a SELECT statement uses, and which index
   candidates follow from that.

   A query is a record
     sel   sequence of  [k |-> "e", e, as]          expression
                     or [k |-> "*", q]              star, q = "" or an alias
     from  sequence of  [k |-> "b", name, as, conds]      base table
                     or [k |-> "d", sub, as, lat, conds]  derived table
                     or [k |-> "f", e, as, conds]         function (PostgreSQL),
                        whose arguments see the tables on its left
           (conds: the join conditions [lo, e, using] that end with this item;
           they see the items from the lo-th up to this one: a comma and
           parentheses keep the tables on their left out of sight)
     where, hav  expressions;  grp, ord  sequences of expressions
   and an expression is [refs |-> seq of [q, c], subs |-> seq of queries,
   plain |-> it is nothing but a column name].

   Names are resolved by SQL's rules: the innermost query that knows the
   qualifier (or, unqualified, the column) wins; a derived table sees the
   queries around its own query, a LATERAL one also the tables on its left;
   a subquery in an expression sees the tables of the query it stands in. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Items(s) == {s[i] : i \in DOMAIN s}

Base(t, c) == [t |-> t, c |-> c]
BaseOuts(sch, t) == {[n |-> c, b |-> {Base(t, c)}] : c \in Items(sch[t].cols)}

(* ---- name resolution: env is a sequence of frames, innermost first; a frame
        is a sequence of [as, outs] ------------------------------------------ *)
Matches(fr, q, c) == UNION {{<<i, o>> : o \in {p \in fr[i].outs : p.n = c}} :
                            i \in {j \in DOMAIN fr : q = "" \/ fr[j].as = q}}
Knows(fr, q, c) == IF q = "" THEN Matches(fr, q, c) # {}
                   ELSE \E i \in DOMAIN fr : fr[i].as = q
RECURSIVE Find(_, _, _)
Find(env, q, c) == IF env = <<>> THEN {}
                   ELSE IF Knows(Head(env), q, c) THEN Matches(Head(env), q, c)
                   ELSE Find(Tail(env), q, c)
Bases(env, r) == UNION {m[2].b : m \in Find(env, r.q, r.c)}
RefBases(env, e) == UNION {Bases(env, r) : r \in Items(e.refs)}
(* a reference means exactly one column (a USING column may mean several) *)
Unambiguous(env, r) == Cardinality(Find(env, r.q, r.c)) = 1

(* ---- use of columns ------------------------------------------------------- *)
U(c, r) == [c |-> c, r |-> r]
Plus(a, b) == U(a.c \cup b.c, a.r \cup b.r)
None == U({}, {})

OutName(x) == IF x.as # "" THEN x.as ELSE IF x.e.plain THEN x.e.refs[1].c ELSE ""
SelNames(q) == {OutName(q.sel[i]) : i \in {j \in DOMAIN q.sel : q.sel[j].k = "e"}} \ {""}

RECURSIVE An(_, _, _, _), AnFrom(_, _, _, _), AnExpr(_, _, _, _, _), AnExprs(_, _, _, _, _)

(* opq: subqueries of expressions are opaque to the analysis (MySQL) *)
AnExpr(sch, opq, e, env, cond) ==
  LET b == RefBases(env, e)
      own == IF cond THEN U(b, {}) ELSE U({}, b)
  IN IF opq THEN own
     ELSE FoldSeq(LAMBDA s, acc : Plus(acc, An(sch, opq, s, env).use), own, e.subs)

AnExprs(sch, opq, es, env, cond) ==
  FoldSeq(LAMBDA e, acc : Plus(acc, AnExpr(sch, opq, e, env, cond)), None, es)

UsingBases(fr, c) == UNION {m[2].b : m \in Matches(fr, "", c)}

AnFrom(sch, opq, items, env) ==
  IF items = <<>> THEN [fr |-> <<>>, use |-> None]
  ELSE LET before == AnFrom(sch, opq, Front(items), env)
           it == Last(items)
           sub == IF it.k = "d"
                  THEN An(sch, opq, it.sub, IF it.lat THEN <<before.fr>> \o env ELSE env)
                  ELSE IF it.k = "f"
                  THEN [out |-> {}, use |-> AnExpr(sch, opq, it.e, <<before.fr>> \o env, FALSE)]
                  ELSE [out |-> BaseOuts(sch, it.name), use |-> None]
           entry == [as |-> IF it.as # "" THEN it.as ELSE it.name, outs |-> sub.out]
           fr == Append(before.fr, entry)
           cond(j) == LET joined == SubSeq(fr, j.lo, Len(fr))
                      IN Plus(U(UNION {UsingBases(joined, c) : c \in Items(j.using)}, {}),
                              AnExpr(sch, opq, j.e, <<joined>> \o env, TRUE))
       IN [fr |-> fr,
           use |-> FoldSeq(LAMBDA j, acc : Plus(acc, cond(j)), Plus(before.use, sub.use), it.conds)]

An(sch, opq, q, env) ==
  LET f == AnFrom(sch, opq, q.from, env)
      e2 == <<f.fr>> \o env
      ex == SelectSeq(q.sel, LAMBDA x : x.k = "e")
      (* a bare name of the select list at ORDER BY is that output, nothing else *)
      ord == SelectSeq(q.ord, LAMBDA e : ~(Len(e.refs) = 1 /\ e.plain /\ e.refs[1].q = "" /\ e.refs[1].c \in SelNames(q)))
      named == {[n |-> OutName(x), b |-> RefBases(e2, x.e)] : x \in {y \in Items(ex) : OutName(y) # ""}}
      starred == UNION {UNION {f.fr[i].outs : i \in {j \in DOMAIN f.fr : x.q = "" \/ f.fr[j].as = x.q}} :
                        x \in {y \in Items(q.sel) : y.k = "*"}}
  IN [out |-> named \cup starred,
      use |-> Plus(f.use,
              Plus(AnExprs(sch, opq, [i \in DOMAIN ex |-> ex[i].e], e2, FALSE),
              Plus(AnExpr(sch, opq, q.where, e2, TRUE),
              Plus(AnExprs(sch, opq, q.grp, e2, FALSE),
              Plus(AnExpr(sch, opq, q.hav, e2, FALSE),
                   AnExprs(sch, opq, ord, e2, FALSE))))))]

Uses(sch, opq, q) == An(sch, opq, q, <<>>).use
ColsOf(bs, t) == {b.c : b \in {x \in bs : x.t = t}}
CondCols(u, t) == ColsOf(u.c, t)
RestCols(u, t) == ColsOf(u.r, t) \ ColsOf(u.c, t)

(* ---- candidates ----------------------------------------------------------- *)
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
RECURSIVE Arrangements(_)
(* all sequences over S without repetition that use all of S *)
Arrangements(S) == IF S = {} THEN {<<>>}
                   ELSE UNION {{<<x>> \o p : p \in Arrangements(S \ {x})} : x \in S}
Sorted(S, rank) == SetToSortSeq(S, LAMBDA a, b : rank[a] < rank[b])
Candidates(C, R, PK, rank) ==
  LET orders == UNION {Arrangements(S) : S \in (SUBSET C \ {{}})}
      tail == Sorted(R, rank)
      full == IF R = {} THEN {} ELSE {p \o tail : p \in Arrangements(C)}
  IN {p \in orders \cup full : ~(Items(p) \subseteq PK)}

AllCandidates(sch, opq, q, rank) ==
  LET u == Uses(sch, opq, q)
  IN UNION {{[t |-> t, cols |-> p] : p \in Candidates(CondCols(u, t), RestCols(u, t), Items(sch[t].pk), rank)} :
            t \in {b.t : b \in u.c \cup u.r}}

(* ---- what a list of suggestions must satisfy ------------------------------ *)
Pairs(S) == UNION {{Base(x.t, c) : c \in Items(x.cols)} : x \in S}
Leaders(S) == {Base(x.t, x.cols[1]) : x \in S}
RestLast(u, S) == \A x \in S : \A i \in DOMAIN x.cols :
                     x.cols[i] \in RestCols(u, x.t) =>
                       /\ CondCols(u, x.t) \subseteq {x.cols[j] : j \in 1..(i - 1)}

CmpSeq(a, b, rank) ==   \* lexicographic, equal lengths
  \E i \in DOMAIN a : rank[a[i]] < rank[b[i]] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Before(a, b, rank) ==
  \/ rank[a.t] < rank[b.t]
  \/ a.t = b.t /\ Len(a.cols) < Len(b.cols)
  \/ a.t = b.t /\ Len(a.cols) = Len(b.cols) /\ CmpSeq(a.cols, b.cols, rank)
Ordered(s, rank) == \A i \in 1..(Len(s) - 1) : Before(s[i], s[i + 1], rank)
NoDup(s) == Cardinality(Items(s)) = Len(s)

(* existing indexes: fold maps every name to its case-insensitive form *)
FoldT(x, fold) == [t |-> fold[x.t], cols |-> [i \in DOMAIN x.cols |-> fold[x.cols[i]]]]
NotYet(S, existing, fold) ==
  LET ex == {FoldT(x, fold) : x \in Items(existing)}
  IN {x \in S : FoldT(x, fold) \notin ex}
Withhold(s, existing, fold) ==
  LET ex == {FoldT(x, fold) : x \in Items(existing)}
  IN SelectSeq(s, LAMBDA x : FoldT(x, fold) \notin ex)
=============================================================================
