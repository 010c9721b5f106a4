-------------------------------- MODULE Page -------------------------------
(* The report page (C21).  A browser reads the text of a script element with
   the automaton Step (the script data states of HTML; "S" stands for the word
   script in any case); the data script is a JavaScript string literal between
   other text.  Texts are sequences of characters. *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

TagEnd == {" ", "/", ">"}
Step(m, c) ==
  CASE m = "sd" -> IF c = "<" THEN "lt" ELSE "sd"
    [] m = "lt" -> IF c = "/" THEN "end" ELSE IF c = "!" THEN "es1" ELSE IF c = "<" THEN "lt" ELSE "sd"
    [] m = "end" -> IF c = "S" THEN "endS" ELSE IF c = "<" THEN "lt" ELSE "sd"
    [] m = "endS" -> IF c \in TagEnd THEN "closed" ELSE IF c = "<" THEN "lt" ELSE "sd"
    [] m = "es1" -> IF c = "-" THEN "es2" ELSE IF c = "<" THEN "lt" ELSE "sd"
    [] m = "es2" -> IF c = "-" THEN "edd" ELSE IF c = "<" THEN "lt" ELSE "sd"
    [] m = "e" -> IF c = "-" THEN "ed" ELSE IF c = "<" THEN "elt" ELSE "e"
    [] m = "ed" -> IF c = "-" THEN "edd" ELSE IF c = "<" THEN "elt" ELSE "e"
    [] m = "edd" -> IF c = "-" THEN "edd" ELSE IF c = "<" THEN "elt" ELSE IF c = ">" THEN "sd" ELSE "e"
    [] m = "elt" -> IF c = "/" THEN "eend" ELSE IF c = "S" THEN "eS" ELSE IF c = "-" THEN "ed" ELSE IF c = "<" THEN "elt" ELSE "e"
    [] m = "eend" -> IF c = "S" THEN "eendS" ELSE IF c = "-" THEN "ed" ELSE IF c = "<" THEN "elt" ELSE "e"
    [] m = "eendS" -> IF c \in TagEnd THEN "closed" ELSE IF c = "-" THEN "ed" ELSE IF c = "<" THEN "elt" ELSE "e"
    [] m = "eS" -> IF c \in TagEnd THEN "d" ELSE IF c = "-" THEN "ed" ELSE IF c = "<" THEN "elt" ELSE "e"
    [] m = "d" -> IF c = "-" THEN "dd" ELSE IF c = "<" THEN "dlt" ELSE "d"
    [] m = "dd" -> IF c = "-" THEN "ddd" ELSE IF c = "<" THEN "dlt" ELSE "d"
    [] m = "ddd" -> IF c = "-" THEN "ddd" ELSE IF c = "<" THEN "dlt" ELSE IF c = ">" THEN "sd" ELSE "d"
    [] m = "dlt" -> IF c = "/" THEN "dend" ELSE IF c = "-" THEN "dd" ELSE IF c = "<" THEN "dlt" ELSE "d"
    [] m = "dend" -> IF c = "S" THEN "dendS" ELSE IF c = "-" THEN "dd" ELSE IF c = "<" THEN "dlt" ELSE "d"
    [] m = "dendS" -> IF c \in TagEnd THEN "e" ELSE IF c = "-" THEN "dd" ELSE IF c = "<" THEN "dlt" ELSE "d"
    [] m = "closed" -> "closed"
Run(t) == FoldSeq(LAMBDA c, m : Step(m, c), "sd", t)
(* a script text is contained if its element ends exactly with the end tag written behind it *)
EndTag == <<"<", "/", "S", ">">>
Contained(t) == Run(t) # "closed" /\ Run(t \o SubSeq(EndTag, 1, 3)) # "closed" /\ Run(t \o EndTag) = "closed"

(* string literals of JavaScript: what needs escaping is written \uXXXX or with a backslash *)
EscC(c) == IF c \in {"<", ">", "&"} THEN <<"\\", "u", c>>     \* \u003c etc.; the code is written without the character
           ELSE IF c \in {"\"", "\\"} THEN <<"\\", c>> ELSE <<c>>
(* in the page the characters < > & do not appear in \u003c: U is what the browser's tokenizer sees *)
Seen(t) == [i \in DOMAIN t |-> IF i > 2 /\ t[i - 1] = "u" /\ t[i - 2] = "\\" /\ t[i] \in {"<", ">", "&"} THEN "0" ELSE t[i]]
Esc(v) == FlattenSeq([i \in DOMAIN v |-> EscC(v[i])])
(* reading a literal (after its opening quote): the value and what is left *)
RECURSIVE Lit(_, _)
Lit(t, acc) ==
  IF t = <<>> THEN [ok |-> FALSE, v |-> acc, rest |-> <<>>]
  ELSE IF t[1] = "\"" THEN [ok |-> TRUE, v |-> acc, rest |-> Tail(t)]
  ELSE IF t[1] = "\\" THEN
         IF Len(t) < 2 THEN [ok |-> FALSE, v |-> acc, rest |-> <<>>]
         ELSE IF t[2] = "u" /\ Len(t) >= 3 THEN Lit(SubSeq(t, 4, Len(t)), Append(acc, t[3]))
         ELSE Lit(SubSeq(t, 3, Len(t)), Append(acc, t[2]))
  ELSE Lit(Tail(t), Append(acc, t[1]))

(* ---- a recorded page: st its tags, texts and comments in order, plain those of the same page with plain texts;
        scripts, data (the data script is one assignment of a JSON value and nothing else), client (the other script
        is the bundled one); want, got: all texts of the data with their places ------------------------------------ *)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Rule(r) ==
  IF r.panic THEN {"crashed"}
  ELSE IF r.exit # 0 \/ ~r.report THEN {"the command failed"}
  ELSE (IF r.st = r.plain /\ r.whole THEN {} ELSE {"a text changes the structure of the page"})
       \cup (IF r.scripts = 2 /\ Count(r.st, "script") = 2 /\ Count(r.st, "/script") = 2 /\ Count(r.st, "#comment") = 0 THEN {} ELSE {"the page does not have exactly its two scripts"})
       \cup (IF r.data THEN {} ELSE {"the data script is not one assignment"})
       \cup (IF r.client THEN {} ELSE {"the client script is not the bundled one"})
       \cup (IF r.got = r.want THEN {} ELSE {"a text comes out differently"})
=============================================================================
