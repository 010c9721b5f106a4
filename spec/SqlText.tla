------------------------------ MODULE SqlText --------------------------------
(* What an index-creating statement means to PostgreSQL and MySQL: identifiers,
   quoting, folding of case and reserved words. A text is a sequence of
   characters, d is "postgres" or "mysql". And what a line of JSON says. *)
EXTENDS Shell

LowerOf == [i \in 1..26 |-> SubSeq(Lower, i, i)]
UpperOf == [i \in 1..26 |-> SubSeq(Upper, i, i)]
ToLower == [c \in SetOf(Upper) |-> LowerOf[CHOOSE i \in 1..26 : UpperOf[i] = c]]
Low(c) == IF c \in DOMAIN ToLower THEN ToLower[c] ELSE c
LowAll(cs) == [i \in DOMAIN cs |-> Low(cs[i])]

Ascii == SetOf(" !\"#$%&'()*+,-./0123456789:;<=>?@[\\]^_`{|}~") \cup {"\n", "\t", "\r"} \cup SetOf(Lower) \cup SetOf(Upper)
WordStart(c) == c \in NameStart \/ (c # "" /\ c \notin Ascii)
WordChar(c) == WordStart(c) \/ c \in Digit \/ c = "$"
Quote(d) == IF d = "mysql" THEN "`" ELSE "\""

Reserved(d) == IF d = "mysql" THEN
 {"accessible","add","all","alter","analyze","and","as","asc","asensitive","before","between","bigint","binary","blob","both","by","call","cascade","case","change","char","character","check","collate","column","condition","constraint","continue","convert","create","cross","cube","cume_dist","current_date","current_time","current_timestamp","current_user","cursor","database","databases","day_hour","day_microsecond","day_minute","day_second","dec","decimal","declare","default","delayed","delete","dense_rank","desc","describe","deterministic","distinct","distinctrow","div","double","drop","dual","each","else","elseif","empty","enclosed","escaped","except","exists","exit","explain","false","fetch","first_value","float","for","force","foreign","from","fulltext","function","generated","get","grant","group","grouping","groups","having","high_priority","if","ignore","in","index","infile","inner","inout","insensitive","insert","int","integer","intersect","interval","into","is","iterate","join","json_table","key","keys","kill","lag","last_value","lateral","lead","leading","leave","left","like","limit","linear","lines","load","localtime","localtimestamp","lock","long","longblob","longtext","loop","low_priority","match","mediumblob","mediumint","mediumtext","mod","modifies","natural","not","nth_value","ntile","null","numeric","of","on","optimize","option","optionally","or","order","out","outer","outfile","over","partition","percent_rank","precision","primary","procedure","purge","range","rank","read","reads","real","recursive","references","regexp","release","rename","repeat","replace","require","resignal","restrict","return","revoke","right","rlike","row","row_number","rows","schema","schemas","select","sensitive","separator","set","show","signal","smallint","spatial","specific","sql","sqlexception","sqlstate","sqlwarning","ssl","starting","stored","straight_join","system","table","terminated","then","tinyblob","tinyint","tinytext","to","trailing","trigger","true","undo","union","unique","unlock","unsigned","update","usage","use","using","utc_date","utc_time","utc_timestamp","values","varbinary","varchar","varying","virtual","when","where","while","window","with","write","xor","year_month","zerofill"}
 ELSE
 {"all","analyse","analyze","and","any","array","as","asc","asymmetric","authorization","binary","both","case","cast","check","collate","collation","column","concurrently","constraint","create","cross","current_catalog","current_date","current_role","current_schema","current_time","current_timestamp","current_user","default","deferrable","desc","distinct","do","else","end","except","false","fetch","for","foreign","freeze","from","full","grant","group","having","ilike","in","initially","inner","intersect","into","is","isnull","join","lateral","leading","left","like","limit","localtime","localtimestamp","natural","not","notnull","null","offset","on","only","or","order","outer","overlaps","placing","primary","references","returning","right","select","session_user","similar","some","symmetric","system_user","table","tablesample","then","to","trailing","true","union","unique","user","using","variadic","verbose","when","where","window","with"}
ReservedChars(d) == {Chars(w) : w \in Reserved(d)}

(* ---- tokens: [k |-> "id" quoted | "w" word | "p" punctuation | "bad", v] ---- *)
LexStart == [m |-> "", cur |-> <<>>, skip |-> 0, ts |-> <<>>]
Tok(st, k, v) == [st EXCEPT !.ts = Append(@, [k |-> k, v |-> v]), !.m = "", !.cur = <<>>]
LexStep(d, cs, st, i) ==
  LET c == cs[i]
      nx == At(cs, i + 1)
      q == Quote(d)
  IN
  IF st.skip > 0 THEN [st EXCEPT !.skip = @ - 1]
  ELSE IF st.m = "q" THEN
    IF c = q /\ nx = q THEN [st EXCEPT !.cur = Append(@, c), !.skip = 1]
    ELSE IF c = q THEN Tok(st, IF st.cur = <<>> THEN "bad" ELSE "id", st.cur)
    ELSE [st EXCEPT !.cur = Append(@, c)]
  ELSE IF c = q THEN [st EXCEPT !.m = "q"]
  ELSE IF c \in {" ", "\t", "\n", "\r"} THEN st
  ELSE IF WordChar(c) /\ (st.m = "w" \/ WordStart(c)) THEN
    LET cur == Append(st.cur, c) IN
    IF WordChar(nx) THEN [st EXCEPT !.m = "w", !.cur = cur] ELSE Tok(st, "w", cur)
  ELSE IF c \in {"(", ")", ",", ";", "."} THEN Tok(st, "p", <<c>>)
  ELSE Tok(st, "bad", <<c>>)
Lex(d, cs) == LET st == FoldLeft(LAMBDA s, i : LexStep(d, cs, s, i), LexStart, [i \in 1..Len(cs) |-> i])
              IN IF st.m = "" THEN st.ts ELSE Append(st.ts, [k |-> "bad", v |-> st.cur])

IsKw(t, w) == t.k = "w" /\ LowAll(t.v) = Chars(w)
IsP(t, c) == t.k = "p" /\ t.v = <<c>>
IsName(d, t) == t.k = "id" \/ (t.k = "w" /\ LowAll(t.v) \notin ReservedChars(d))
NameOf(d, t) == IF t.k = "w" /\ d = "postgres" THEN LowAll(t.v) ELSE t.v

NoIndex == [ok |-> FALSE, t |-> <<>>, cols |-> <<>>]
Head2(ts, a, b) == Len(ts) >= 2 /\ IsKw(ts[1], a) /\ IsKw(ts[2], b)
(* the index created by the statement *)
Created(d, cs) ==
  LET all == Lex(d, cs)
      ts == IF all # <<>> /\ IsP(Last(all), ";") THEN Front(all) ELSE all
      ops == {i \in DOMAIN ts : IsP(ts[i], "(")}
      p == IF ops = {} THEN 0 ELSE CHOOSE i \in ops : \A j \in ops : i <= j
      pre == SubSeq(ts, 1, p - 1)
      inn == SubSeq(ts, p + 1, Len(ts) - 1)
      n == Len(pre)
      colsOk == /\ Len(inn) % 2 = 1
                /\ \A i \in DOMAIN inn : IF i % 2 = 1 THEN IsName(d, inn[i]) ELSE IsP(inn[i], ",")
      create == /\ Head2(pre, "create", "index") /\ n \in {4, 5} /\ IsKw(pre[n - 1], "on") /\ IsName(d, pre[n])
                /\ (n = 5 => IsName(d, pre[3])) /\ (n = 4 => d = "postgres")
      alter == /\ d = "mysql" /\ Head2(pre, "alter", "table") /\ n \in {5, 6} /\ IsName(d, pre[3]) /\ IsKw(pre[4], "add")
               /\ (IsKw(pre[5], "index") \/ IsKw(pre[5], "key")) /\ (n = 6 => IsName(d, pre[6]))
  IN IF p = 0 \/ ~IsP(Last(ts), ")") \/ ~colsOk \/ ~(create \/ alter) THEN NoIndex
     ELSE [ok |-> TRUE, t |-> NameOf(d, IF create THEN pre[n] ELSE pre[3]),
           cols |-> [k \in 1..((Len(inn) + 1) \div 2) |-> NameOf(d, inn[2 * k - 1])]]

QuoteName(d, cs) == LET q == Quote(d) f(c) == IF c = q THEN <<c, c>> ELSE <<c>> IN <<q>> \o Rep(cs, f) \o <<q>>
Offer(d, t, cols) ==
  LET list == FlattenSeq([k \in 1..Len(cols) |-> (IF k = 1 THEN <<>> ELSE Chars(", ")) \o QuoteName(d, cols[k])])
  IN IF d = "mysql" THEN Chars("ALTER TABLE ") \o QuoteName(d, t) \o Chars(" ADD INDEX (") \o list \o Chars(");")
     ELSE Chars("CREATE INDEX ON ") \o QuoteName(d, t) \o Chars(" (") \o list \o Chars(");")

(* ---- JSON: tokens [k |-> "s" string | "p" punctuation | "w" other, v] --------- *)
Unescape(c) == CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "r" -> "\r" [] c \in {"\"", "\\", "/"} -> c [] OTHER -> "BAD"
JStep(cs, st, i) ==
  LET c == cs[i] nx == At(cs, i + 1) IN
  IF st.skip > 0 THEN [st EXCEPT !.skip = @ - 1]
  ELSE IF st.m = "q" THEN
    IF c = "\"" THEN Tok(st, "s", st.cur)
    ELSE IF c = "\\" THEN [st EXCEPT !.cur = Append(@, Unescape(nx)), !.skip = 1]
    ELSE IF c \in {"\n", "\t", "\r"} THEN [st EXCEPT !.cur = Append(@, "BAD")]
    ELSE [st EXCEPT !.cur = Append(@, c)]
  ELSE IF c = "\"" THEN [st EXCEPT !.m = "q"]
  ELSE IF c \in {" ", "\t", "\n", "\r"} THEN st
  ELSE Tok(st, "p", <<c>>)
JLex(cs) == LET st == FoldLeft(LAMBDA s, i : JStep(cs, s, i), LexStart, [i \in 1..Len(cs) |-> i])
            IN IF st.m = "" THEN st.ts ELSE Append(st.ts, [k |-> "bad", v |-> st.cur])
JS(w) == [k |-> "s", v |-> Chars(w)]
JP(c) == [k |-> "p", v |-> <<c>>]
(* the values of a member with a text as value *)
Members(ts, w) == {ts[i + 2].v : i \in {j \in DOMAIN ts : j + 2 <= Len(ts) /\ ts[j] = JS(w) /\ ts[j + 1] = JP(":") /\ ts[j + 2].k = "s"}}
Balanced(ts) == /\ ts # <<>> /\ ts[1] = JP("{") /\ Last(ts) = JP("}")
                /\ Len(SelectSeq(ts, LAMBDA t : t = JP("{"))) = Len(SelectSeq(ts, LAMBDA t : t = JP("}")))
                /\ \A i \in DOMAIN ts : ts[i].k # "bad" /\ "BAD" \notin ToSet(ts[i].v)

(* ---- C27 ----------------------------------------------------------------------- *)
SqlRule(r) ==
  LET c == Created(r.d, r.text) IN
  IF ~c.ok THEN {"the SQL offered is no statement creating an index"}
  ELSE IF c.t = r.t /\ c.cols = r.cols THEN {} ELSE {"the SQL offered creates another index"}
CurlRule(r) ==
  LET ws == Words(r.text)
      vals(ns) == {ws[i + 1] : i \in {j \in 1..(Len(ws) - 1) : ws[j] \in {Chars(n) : n \in ns}}}
      body == vals({"--data", "-d", "--data-raw", "--data-binary"})
      url == vals({"--url"}) \cup ToSet(ws)
      js == IF Cardinality(body) = 1 THEN JLex(CHOOSE b \in body : TRUE) ELSE <<>>
      sql == Members(js, "sql")
  IN (IF ws # <<>> /\ ws[1] = Chars("curl") /\ <<"OP">> \notin ToSet(ws) THEN {} ELSE {"the request is not one command"})
     \cup (IF (<<"${HASURA_URL}">> \o Chars("/v2/query")) \in url THEN {} ELSE {"the request goes to another place"})
     \cup (IF (Chars("x-hasura-admin-secret: ") \o <<"${HASURA_ADMIN_SECRET}">>) \in vals({"--header", "-H"}) THEN {} ELSE {"the request has no secret"})
     \cup (IF Balanced(js) /\ Members(js, "type") = {Chars("run_sql")} /\ Cardinality(sql) = 1 THEN {} ELSE {"the body of the request is not understood by Hasura"})
     \cup (IF Cardinality(sql) = 1 THEN SqlRule([r EXCEPT !.text = CHOOSE s \in sql : TRUE]) ELSE {})
OfferRule(r) == IF r.kind = "sql" THEN SqlRule(r) ELSE CurlRule(r)
=============================================================================
