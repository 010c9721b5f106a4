-------------------------------- MODULE Shown --------------------------------
(* What a report shows of its data: the table of an examination (C31), that
   every report can be opened and has its sections (C32), and texts put into
   markup (C33). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in ToSet(a) \cup ToSet(b) : Len(SelectSeq(a, LAMBDA y : y = x)) = Len(SelectSeq(b, LAMBDA y : y = x))

(* ---- C31. r: orig, results [time, t, cols], rows [time, red, t, cols]; times in
   milliseconds, reduction in hundredths of a percent ------------------------- *)
(* red is the reduction from o to e, rounded to hundredths either way at a half *)
Rounded(red, o, e) == LET d == red * o - (o - e) * 10000 IN 2 * d <= o /\ -2 * d <= o
Bare(x) == [time |-> x.time, t |-> x.t, cols |-> x.cols]
ExamRule(r) ==
  IF r.crash # "" THEN {"the page crashes"}
  ELSE (IF r.first = r.orig THEN {} ELSE {"the original time is not shown"})
  \cup (IF SameBag([k \in DOMAIN r.rows |-> Bare(r.rows[k])], r.results) THEN {} ELSE {"the table does not show the measured indexes as they are"})
  \cup (IF \A k \in 1..(Len(r.rows) - 1) : r.rows[k].time <= r.rows[k + 1].time THEN {} ELSE {"the table is not sorted by time"})
  \cup (IF \A k \in DOMAIN r.rows : r.orig > 0 => Rounded(r.rows[k].red, r.orig, r.rows[k].time) THEN {} ELSE {"a reduction is wrong"})

(* ---- C32. r: cards (shown), want (sections the data has), texts: pairs [s |-> shown, w |-> from the input] *)
OpenRule(r) ==
  IF r.crash # "" THEN {"the report cannot be opened"}
  ELSE (IF ToSet(r.cards) = ToSet(r.want) /\ Len(r.cards) = Cardinality(ToSet(r.cards)) THEN {} ELSE {"the report does not have the sections of its data"})
  \cup {"the report does not show the " \o r.texts[k].what \o " as it is" : k \in {j \in DOMAIN r.texts : r.texts[j].s # r.texts[j].w}}

(* ---- C33: markup. A text is a sequence of characters; an item is [k |-> "tag", v] or [k |-> "txt", v] ---- *)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Letters == {SubSeq("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", i, i) : i \in 1..52}
At(cs, i) == IF i \in DOMAIN cs THEN cs[i] ELSE ""
Entities == [x \in {Chars("&amp;"), Chars("&lt;"), Chars("&gt;"), Chars("&quot;"), Chars("&#39;"), Chars("&#x27;"), Chars("&apos;"), Chars("&#34;"), Chars("&#60;"), Chars("&#62;"), Chars("&#38;"), Chars("&#x2F;"), Chars("&#x60;"), Chars("&#96;"), Chars("&#x3D;"), Chars("&nbsp;")} |->
  CASE x = Chars("&amp;") \/ x = Chars("&#38;") -> "&" [] x = Chars("&lt;") \/ x = Chars("&#60;") -> "<" [] x = Chars("&gt;") \/ x = Chars("&#62;") -> ">"
    [] x = Chars("&quot;") \/ x = Chars("&#34;") -> "\"" [] x = Chars("&nbsp;") -> " " [] x = Chars("&#x2F;") -> "/" [] x = Chars("&#x60;") \/ x = Chars("&#96;") -> "`" [] x = Chars("&#x3D;") -> "=" [] OTHER -> "'"]
EntityAt(cs, i) == {x \in DOMAIN Entities : i + Len(x) - 1 <= Len(cs) /\ SubSeq(cs, i, i + Len(x) - 1) = x}
Blank == {" ", "\n", "\t", "\r"}
S0 == [m |-> "txt", skip |-> 0, cur |-> <<>>, out |-> <<>>, pend |-> FALSE]
Put(st, c) == [st EXCEPT !.cur = Append(@, c)]
Flush(st) == IF st.cur = <<>> THEN st ELSE [st EXCEPT !.out = Append(@, [k |-> st.m, v |-> st.cur]), !.cur = <<>>]
MStep(cs, st, i) ==
  LET c == cs[i] IN
  IF st.skip > 0 THEN [st EXCEPT !.skip = @ - 1]
  ELSE IF st.m = "txt" THEN
    IF c = "<" /\ (At(cs, i + 1) \in Letters \cup {"/", "!", "?"}) THEN [Flush(st) EXCEPT !.m = "tag", !.cur = <<c>>]
    ELSE IF c = "&" /\ EntityAt(cs, i) # {} THEN LET x == CHOOSE y \in EntityAt(cs, i) : TRUE IN [Put(st, Entities[x]) EXCEPT !.skip = Len(x) - 1]
    ELSE IF c = "&" /\ At(cs, i + 1) \in (Letters \cup {"#"}) THEN Put(st, "ENT")   \* some other reference, as the author surely did not mean
    ELSE Put(st, c)
  ELSE IF c = ">" THEN [Flush(Put(st, c)) EXCEPT !.m = "txt"]
  ELSE Put(st, c)
Markup(cs) == Flush(FoldLeft(LAMBDA s, i : MStep(cs, s, i), S0, [i \in 1..Len(cs) |-> i])).out
EscapeHtml(cs) == FlattenSeq([i \in DOMAIN cs |->
  CASE cs[i] = "&" -> Chars("&amp;") [] cs[i] = "<" -> Chars("&lt;") [] cs[i] = ">" -> Chars("&gt;") [] cs[i] = "\"" -> Chars("&quot;") [] OTHER -> <<cs[i]>>])
RECURSIVE Subst(_, _, _)
(* every w in cs replaced by v *)
Subst(cs, w, v) ==
  LET at == {i \in 1..(Len(cs) - Len(w) + 1) : SubSeq(cs, i, i + Len(w) - 1) = w} IN
  IF at = {} THEN cs
  ELSE LET i == CHOOSE j \in at : \A l \in at : j <= l
       IN SubSeq(cs, 1, i - 1) \o v \o Subst(SubSeq(cs, i + Len(w), Len(cs)), w, v)
RECURSIVE SubstAll(_, _)
SubstAll(cs, ps) == IF ps = <<>> THEN cs ELSE SubstAll(Subst(cs, Head(ps).w, Head(ps).v), Tail(ps))
(* r: tip and the same tip over plain words, pairs [w |-> word, v |-> text]; kind "text": what a reader
   sees on the page, in place of the markup of a tip *)
TipRule(r) ==
  IF r.crash # "" THEN {"the page crashes"}
  ELSE IF r.kind = "text" THEN (IF r.tip = SubstAll(r.plain, r.pairs) THEN {} ELSE {"the page shows a text in another form"})
  ELSE LET a == Markup(r.tip)
           b == Markup(r.plain)
       IN IF /\ Len(a) = Len(b)
             /\ \A k \in DOMAIN b : a[k] = (IF b[k].k = "tag" THEN b[k] ELSE [b[k] EXCEPT !.v = SubstAll(@, r.pairs)])
          THEN {} ELSE {"a text is taken for markup"}
=============================================================================
