------------------------------ MODULE Config -------------------------------
(* Settings and how they reach the server (C23).  Texts are sequences of
   characters.  PostgreSQL's settings travel through libpq's connection string
   of key=value pairs, so that is specified as well: Encode writes it, Parse
   reads it the way libpq documents (blanks around, quotes, backslashes). *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Blank == {" ", "\t", "\n"}
Quoted(v) == <<"'">> \o FlattenSeq([i \in DOMAIN v |-> IF v[i] \in {"'", "\\"} THEN <<"\\", v[i]>> ELSE <<v[i]>>]) \o <<"'">>
Pair(k, v) == k \o <<"=">> \o Quoted(v)
RECURSIVE Encode(_)
Encode(ps) == IF ps = <<>> THEN <<>> ELSE Pair(ps[1].k, ps[1].v) \o (IF Len(ps) = 1 THEN <<>> ELSE <<" ">> \o Encode(Tail(ps)))

(* states of the reader: p before a pair, k in a key, e before =, v before a value, u in a bare value, q in a quoted one *)
Start == [m |-> "p", k |-> <<>>, v |-> <<>>, esc |-> FALSE, out |-> <<>>]
Bad == [Start EXCEPT !.m = "bad"]
Done(s) == [Start EXCEPT !.out = Append(s.out, [k |-> s.k, v |-> s.v])]
Read(s, c) ==
  CASE s.m = "bad" -> s
    [] s.m = "p" -> IF c \in Blank THEN s ELSE IF c = "=" THEN Bad ELSE [s EXCEPT !.m = "k", !.k = <<c>>, !.v = <<>>]
    [] s.m = "k" -> IF c = "=" THEN [s EXCEPT !.m = "v"] ELSE IF c \in Blank THEN [s EXCEPT !.m = "e"] ELSE [s EXCEPT !.k = Append(s.k, c)]
    [] s.m = "e" -> IF c = "=" THEN [s EXCEPT !.m = "v"] ELSE IF c \in Blank THEN s ELSE Bad
    [] s.m = "v" -> IF c \in Blank THEN s ELSE IF c = "'" THEN [s EXCEPT !.m = "q"] ELSE IF c = "\\" THEN [s EXCEPT !.m = "u", !.esc = TRUE] ELSE [s EXCEPT !.m = "u", !.v = <<c>>]
    [] s.m = "u" -> IF s.esc THEN [s EXCEPT !.esc = FALSE, !.v = Append(s.v, c)]
                    ELSE IF c = "\\" THEN [s EXCEPT !.esc = TRUE] ELSE IF c \in Blank THEN Done(s) ELSE [s EXCEPT !.v = Append(s.v, c)]
    [] s.m = "q" -> IF s.esc THEN [s EXCEPT !.esc = FALSE, !.v = Append(s.v, c)]
                    ELSE IF c = "\\" THEN [s EXCEPT !.esc = TRUE] ELSE IF c = "'" THEN Done(s) ELSE [s EXCEPT !.v = Append(s.v, c)]
Finish(s) == IF s.m = "p" THEN s ELSE IF s.m \in {"u", "v"} THEN Done(s) ELSE Bad
Parse(t) == LET s == Finish(FoldSeq(LAMBDA c, a : Read(a, c), Start, t)) IN IF s.m = "bad" THEN <<[k |-> <<>>, v |-> <<>>]>> ELSE s.out
(* the last value given for a key counts *)
Get(ps, k) == LET is == {i \in DOMAIN ps : ps[i].k = k} IN IF is = {} THEN <<>> ELSE ps[Max(is)].v

(* ---- what the server has to see ------------------------------------------------------------------------------ *)
(* a login shows what is configured *)
LoginOk(want, l) == l.user = want.user /\ l.db = want.db /\ l.pass = want.pass
(* a request goes to the configured path followed by one of the three known ones, with the configured secret *)
Endpoints == {<<"v1", "graphql">>, <<"v1", "graphql", "explain">>, <<"v2", "query">>}
RequestOk(want, q) == /\ q.secret = want.secret /\ q.query = want.query
                      /\ \E e \in Endpoints : q.segs = want.segs \o e
Rule(r) ==
  IF r.panic THEN {"crashed"}
  ELSE IF r.missing THEN
     (IF r.exit # 0 /\ r.file # "written" THEN {} ELSE {"a required setting is missing but the command does not fail"})
     \cup (IF r.logins = <<>> /\ r.reqs = <<>> THEN {} ELSE {"a required setting is missing but the server is contacted"})
  ELSE (IF \A i \in DOMAIN r.logins : LoginOk(r.want, r.logins[i]) THEN {} ELSE {"the server is presented with other login data"})
       \cup (IF \A i \in DOMAIN r.reqs : RequestOk(r.want, r.reqs[i]) THEN {} ELSE {"a request goes elsewhere or has another secret"})
       \cup (IF \A p \in ToSet(r.want.params) : p \in ToSet(r.params) THEN {} ELSE {"a further parameter is not in effect"})
       \cup (IF r.unusable THEN (IF r.exit # 0 /\ r.file # "written" THEN {} ELSE {"the settings do not work but the command succeeds"})
             ELSE (IF r.logins # <<>> \/ r.reqs # <<>> THEN {} ELSE {"the configured server is not contacted"})
                  \cup (IF r.exit = 0 /\ r.file = "written" THEN {} ELSE {"the command fails with valid settings"})
                  \cup (IF r.exit # 0 \/ r.own THEN {} ELSE {"the catalog is not read from the configured database or schema"}))
=============================================================================
