------------------------------- MODULE Shell --------------------------------
(* How a POSIX shell takes a command line apart (word splitting and quoting).
   A text is a sequence of characters (strings of length one); a word is a
   sequence of characters and of "${NAME}" for the expansion of a variable;
   "EXP" is any other expansion, "OP" an operator, "CUT" an unfinished quote. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
SetOf(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digit == SetOf("0123456789")
NameStart == SetOf(Lower) \cup SetOf(Upper) \cup {"_"}
NameChar == NameStart \cup Digit
Params == Digit \cup SetOf("@*#?-$!")
Oper == SetOf("|&;<>()")
Active == SetOf("`*?[{~#!")

At(cs, i) == IF i \in DOMAIN cs THEN cs[i] ELSE ""
Str(cs) == FoldLeft(LAMBDA a, c : a \o c, "", cs)
RECURSIVE NameEnd(_, _)
NameEnd(cs, i) == IF At(cs, i) \in NameChar THEN NameEnd(cs, i + 1) ELSE i

(* what begins with the dollar at i: [e |-> element, n |-> characters] *)
Dollar(cs, i, quoted) ==
  LET c == At(cs, i + 1) IN
  IF c \in NameStart
  THEN LET j == NameEnd(cs, i + 1) IN [e |-> "${" \o Str(SubSeq(cs, i + 1, j - 1)) \o "}", n |-> j - i]
  ELSE IF c = "{"
  THEN LET j == NameEnd(cs, i + 2) IN
       IF At(cs, i + 2) \in NameStart /\ At(cs, j) = "}"
       THEN [e |-> "${" \o Str(SubSeq(cs, i + 2, j - 1)) \o "}", n |-> j + 1 - i]
       ELSE [e |-> "EXP", n |-> 1]
  ELSE IF c = "(" \/ c \in Params \/ (~quoted /\ c \in {"'", "\""}) THEN [e |-> "EXP", n |-> 1]
  ELSE [e |-> "$", n |-> 1]

Start == [m |-> "u", skip |-> 0, open |-> FALSE, cur |-> <<>>, ws |-> <<>>]
Add(st, e) == [st EXCEPT !.cur = Append(@, e), !.open = TRUE]
End(st) == IF st.open THEN [st EXCEPT !.ws = Append(@, st.cur), !.cur = <<>>, !.open = FALSE] ELSE st

Plain(cs, st, i, c) ==
  IF c \in {" ", "\t"} THEN End(st)
  ELSE IF c = "\n" THEN [End(st) EXCEPT !.ws = Append(@, <<"OP">>)]
  ELSE IF c = "'" THEN [st EXCEPT !.m = "s", !.open = TRUE]
  ELSE IF c = "\"" THEN [st EXCEPT !.m = "d", !.open = TRUE]
  ELSE IF c = "\\" THEN
    IF At(cs, i + 1) = "\n" THEN [st EXCEPT !.skip = 1]
    ELSE IF i = Len(cs) THEN Add(st, c)
    ELSE [Add(st, cs[i + 1]) EXCEPT !.skip = 1]
  ELSE IF c = "$" THEN LET d == Dollar(cs, i, FALSE) IN [Add(st, d.e) EXCEPT !.skip = d.n - 1]
  ELSE IF c \in Oper THEN [End(st) EXCEPT !.ws = Append(@, <<"OP">>)]
  ELSE IF c \in {"~", "#"} /\ st.open THEN Add(st, c)
  ELSE IF c \in Active THEN Add(st, "EXP")
  ELSE Add(st, c)

Doubled(cs, st, i, c) ==
  IF c = "\"" THEN [st EXCEPT !.m = "u"]
  ELSE IF c = "\\" /\ At(cs, i + 1) \in {"$", "`", "\"", "\\"} THEN [Add(st, cs[i + 1]) EXCEPT !.skip = 1]
  ELSE IF c = "\\" /\ At(cs, i + 1) = "\n" THEN [st EXCEPT !.skip = 1]
  ELSE IF c = "`" THEN Add(st, "EXP")
  ELSE IF c = "$" THEN LET d == Dollar(cs, i, TRUE) IN [Add(st, d.e) EXCEPT !.skip = d.n - 1]
  ELSE Add(st, c)

Step(cs, st, i) ==
  LET c == cs[i] IN
  IF st.skip > 0 THEN [st EXCEPT !.skip = @ - 1]
  ELSE IF st.m = "s" THEN (IF c = "'" THEN [st EXCEPT !.m = "u"] ELSE Add(st, c))
  ELSE IF st.m = "d" THEN Doubled(cs, st, i, c)
  ELSE Plain(cs, st, i, c)

Finish(st) == LET e == End(st) IN IF st.m = "u" THEN e.ws ELSE Append(e.ws, <<"CUT">>)
RECURSIVE Trim(_)
Trim(ws) == IF ws # <<>> /\ ws[Len(ws)] = <<"OP">> THEN Trim(Front(ws)) ELSE ws
Words(cs) == Trim(Finish(FoldLeft(LAMBDA st, i : Step(cs, st, i), Start, [i \in 1..Len(cs) |-> i])))

(* two ways to write a text so that the shell gives it back *)
Rep(cs, f(_)) == FoldLeft(LAMBDA a, c : a \o f(c), <<>>, cs)
Quote2(cs) == LET f(c) == IF c \in {"$", "`", "\"", "\\"} THEN <<"\\", c>> ELSE <<c>> IN <<"\"">> \o Rep(cs, f) \o <<"\"">>
Quote1(cs) == LET f(c) == IF c = "'" THEN <<"'", "\\", "'", "'">> ELSE <<c>> IN <<"'">> \o Rep(cs, f) \o <<"'">>

(* ---- options of gr ------------------------------------------------------- *)
Long == [i |-> "index", o |-> "output", q |-> "query", v |-> "verbose"]
LongName(c) == IF c \in DOMAIN Long THEN Chars(Long[c]) ELSE <<c>>
Flags == {Chars("with-examine"), Chars("verbose"), Chars("use-mock")}
RECURSIVE Opts(_)
(* the options written by words: sequence of [n |-> long name, v |-> value] *)
Opts(ws) ==
  IF ws = <<>> THEN <<>>
  ELSE LET w == Head(ws) IN
  IF Len(w) > 2 /\ w[1] = "-" /\ w[2] = "-" THEN
    LET eq == {k \in 3..Len(w) : w[k] = "="}
        e == IF eq = {} THEN 0 ELSE CHOOSE k \in eq : \A l \in eq : k <= l
        n == SubSeq(w, 3, IF e = 0 THEN Len(w) ELSE e - 1)
    IN IF e # 0 THEN <<[n |-> n, v |-> SubSeq(w, e + 1, Len(w))]>> \o Opts(Tail(ws))
       ELSE IF n \in Flags THEN <<[n |-> n, v |-> Chars("true")]>> \o Opts(Tail(ws))
       ELSE IF Len(ws) = 1 THEN <<[n |-> <<"OP">>, v |-> n]>>
       ELSE <<[n |-> n, v |-> ws[2]]>> \o Opts(SubSeq(ws, 3, Len(ws)))
  ELSE IF Len(w) >= 2 /\ w[1] = "-" THEN
    LET n == LongName(w[2]) IN
    IF n \in Flags THEN <<[n |-> n, v |-> Chars("true")]>> \o Opts(Tail(ws))
    ELSE IF Len(w) > 2 THEN <<[n |-> n, v |-> SubSeq(w, IF w[3] = "=" THEN 4 ELSE 3, Len(w))]>> \o Opts(Tail(ws))
    ELSE IF Len(ws) = 1 THEN <<[n |-> <<"OP">>, v |-> n]>>
    ELSE <<[n |-> n, v |-> ws[2]]>> \o Opts(SubSeq(ws, 3, Len(ws)))
  ELSE <<[n |-> <<"OP">>, v |-> w]>> \o Opts(Tail(ws))

Named(os, n) == SelectSeq(os, LAMBDA o : o.n = n)
Others(os, ns) == SelectSeq(os, LAMBDA o : o.n \notin ns)
Vals(os) == [k \in 1..Len(os) |-> os[k].v]
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in ToSet(a) \cup ToSet(b) : Len(SelectSeq(a, LAMBDA y : y = x)) = Len(SelectSeq(b, LAMBDA y : y = x))
Starts(a, p) == Len(a) >= Len(p) /\ SubSeq(a, 1, Len(p)) = p
Dots == Chars("...")

(* ---- C26: the commands a report offers ------------------------------------ *)
IndexText(t) == t.t \o <<":">> \o FlattenSeq([k \in 1..Len(t.cols) |-> IF k = 1 THEN t.cols[k] ELSE <<"+">> \o t.cols[k]])
Given(o) == [n |-> IF o.short THEN LongName(o.n[1]) ELSE o.n, v |-> o.v]
(* r: sub (words of the command), idx (ticked candidates), opts (the report's) *)
SuggestRule(r) ==
  LET prompt == Starts(r.text, <<"$", " ">>)
      ws == Words(IF prompt THEN SubSeq(r.text, 3, Len(r.text)) ELSE r.text)
      cmd == <<Chars("gr"), Chars("db"), Chars("suggest")>> \o [k \in 1..Len(r.sub) |-> Chars(r.sub[k])]
      os == Opts(SubSeq(ws, Len(cmd) + 1, Len(ws)))
      ix == Vals(Named(os, Chars("index")))
      we == Vals(Named(os, Chars("with-examine")))
      rest == Others(os, {Chars("index"), Chars("with-examine")})
      want == [k \in 1..Len(r.idx) |-> IndexText(r.idx[k])]
  IN (IF Starts(ws, cmd) THEN {} ELSE {"the command is not the one for this database"})
     \cup (IF we = <<Chars("true")>> THEN {} ELSE {"the command does not ask for an examination"})
     \cup (IF ix = (IF want = <<>> THEN <<Dots>> ELSE want) THEN {} ELSE {"-i does not receive the ticked indexes as they are"})
     \cup (IF SameBag(rest, [k \in 1..Len(r.opts) |-> Given(r.opts[k])]) THEN {} ELSE {"an option does not receive its value as it is"})
(* r: sel, db, sql *)
PiRule(r) ==
  LET ws == Words(r.text)
      db == Chars("DB_DATABASE=") \o (IF r.sel THEN r.db ELSE Dots)
      cmd == <<db, Chars("gr"), Chars("db"), Chars("suggest"), Chars("mysql")>>
      os == Opts(SubSeq(ws, 6, Len(ws)))
      q == Vals(Named(os, Chars("query")))
      o == Vals(Named(os, Chars("output")))
  IN (IF ws # <<>> /\ ws[1] = db THEN {} ELSE {"the command does not read the database of the chosen statement"})
     \cup (IF Len(ws) < 5 \/ Tail(SubSeq(ws, 1, 5)) = Tail(cmd) THEN {} ELSE {"the command is not the one for MySQL"})
     \cup (IF Len(ws) >= 5 /\ q = <<IF r.sel THEN r.sql ELSE Dots>> THEN {} ELSE {"-q does not receive the chosen statement as it is"})
     \cup (IF Len(ws) >= 5 /\ Len(o) = 1 /\ o[1] # <<>> /\ "EXP" \notin ToSet(o[1]) THEN {} ELSE {"the command has no output"})
     \cup (IF Others(os, {Chars("query"), Chars("output")}) = <<>> THEN {} ELSE {"the command has other arguments"})
CommandRule(r) == IF r.kind = "suggest" THEN SuggestRule(r) ELSE PiRule(r)
=============================================================================
