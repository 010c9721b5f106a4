------------------------------- MODULE MCPage ------------------------------
(* All short texts over the characters that matter and all short sequences of
   dangerous pieces: escaped they never end or disguise the script element and
   are read back unchanged.  Sequences of pieces are emitted for replay. *)
EXTENDS Page, TLC, Json
CONSTANTS MaxLen, MaxAtoms
Chars == {"<", "/", "!", "-", "S", ">", " ", "\"", "\\", "x"}
Atoms == <<(* 1 *) <<"<", "/", "S", ">">>, <<"<", "!", "-", "-">>, <<"-", "-", ">">>, <<"<", "S", ">">>, <<"<", "S", " ">>, <<"<", "/", "S", " ">>,
           <<"\"">>, <<"\\">>, <<"x">>, <<"<">>, <<"/">>, <<"-">>>>
VARIABLES v, a
Init == \/ a = <<>> /\ v \in UNION {[1..k -> Chars] : k \in 0..MaxLen}
        \/ /\ a \in UNION {[1..k -> 1..Len(Atoms)] : k \in 1..MaxAtoms}
           /\ v = FlattenSeq([i \in DOMAIN a |-> Atoms[a[i]]])
Next == UNCHANGED <<v, a>>
Spec == Init /\ [][Next]_<<v, a>>
Pre == <<"x", " ", "\"">>
Post == <<"\"", " ">>
Safe == LET t == Pre \o Seen(Esc(v)) \o Post IN Contained(t) /\ Run(t) = "sd"
Back == LET l == Lit(Esc(v) \o Post, <<>>) IN l.ok /\ l.v = v /\ l.rest = Tail(Post)
(* escaping only quotes and backslashes is not enough: a closing tag ends the script, and <!-- with <script hides its end *)
Weak(x) == FlattenSeq([i \in DOMAIN x |-> IF x[i] \in {"\"", "\\"} THEN <<"\\", x[i]>> ELSE <<x[i]>>])
ASSUME Run(Pre \o Weak(Atoms[1])) = "closed"
ASSUME LET t == Pre \o Weak(Atoms[2] \o Atoms[4]) \o Post IN Run(t) # "closed" /\ ~Contained(t)
Emit == a # <<>> => PrintT(<<"PAGE", ToJson([v |-> v])>>)
=============================================================================
