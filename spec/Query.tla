------------------------------- MODULE Query -------------------------------
(* The user's query through a run of suggest (C06): explained, measured,
   reported and offered for a re-run, always the same; and the output path
   offered for the re-run.  Paths are sequences of characters. *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

LastSlash(p) == Max({0} \cup {i \in DOMAIN p : p[i] = "/"})
(* the extension: from the last dot of the last element of the path on *)
Dot(p) == LET ds == {i \in DOMAIN p : i > LastSlash(p) /\ p[i] = "."} IN IF ds = {} THEN Len(p) + 1 ELSE Max(ds)
Ext(p) == SubSeq(p, Dot(p), Len(p))
Base(p) == SubSeq(p, 1, Dot(p) - 1)
(* the path offered for a re-run: the given one if the examination was made, else one beside it *)
OfferOk(p, o, examined) ==
  IF examined THEN o = p
  ELSE /\ Len(o) > Len(p) /\ IsPrefix(Base(p), o) /\ IsSuffix(Ext(p), o)
       /\ LET mid == SubSeq(o, Len(Base(p)) + 1, Len(o) - Len(Ext(p))) IN mid # <<>> /\ "/" \notin ToSet(mid)
Offer(p, examined, suf) == IF examined THEN p ELSE Base(p) \o suf \o Ext(p)

(* a run: ev explains and executions (same: the text is the user's; vars: canonical form of the variables),
   rep what the report shows, opt what it offers *)
Rule(r) ==
  IF r.panic THEN {"crashed"}
  ELSE IF r.exit # 0 THEN {"a supported query was refused"}
  ELSE (IF \E i \in DOMAIN r.ev : r.ev[i].k = "explain" THEN {} ELSE {"the query is not explained"})
       \cup (IF ~r.examined \/ \E i \in DOMAIN r.ev : r.ev[i].k = "exec" THEN {} ELSE {"the query is not measured"})
       \cup (IF \A i \in DOMAIN r.ev : r.ev[i].same THEN {} ELSE {"another text is explained or executed"})
       \cup (IF \A i \in DOMAIN r.ev : r.ev[i].vars = r.vars THEN {} ELSE {"other variables are sent"})
       \cup (IF r.rep.query = r.query /\ r.rep.sql = r.sql THEN {} ELSE {"the report shows another query"})
       \cup (IF r.rep.vars = r.vars THEN {} ELSE {"the report shows other variables"})
       \cup (IF r.opt.query = r.query THEN {} ELSE {"another query is offered for a re-run"})
       \cup (IF r.opt.vars = r.vars THEN {} ELSE {"other variables are offered for a re-run"})
       \cup (IF OfferOk(r.path, r.opt.path, r.examined) THEN {} ELSE {"the output path offered for a re-run is not the given one or one beside it"})
=============================================================================
