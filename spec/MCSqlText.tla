----------------------------- MODULE MCSqlText -------------------------------
(* All short names over the characters that matter to SQL, JSON and a shell:
   the statement quoting them creates exactly the index (lemma), also through
   JSON and the shell; printed for replay. *)
EXTENDS SqlText, TLC, Json
CONSTANTS MaxLen, Show
Alphabet == {"a", "A", "\"", "`", "'", "\\", " ", "$", ",", ")", "1", "-"}
VARIABLE w
Init == w = <<>>
Next == Len(w) < MaxLen /\ \E c \in Alphabet : w' = Append(w, c)
Spec == Init /\ [][Next]_w
Esc(c) == IF c \in {"\"", "\\"} THEN <<"\\", c>> ELSE <<c>>
Lemma == w # <<>> => \A d \in {"postgres", "mysql"} :
           LET o == Offer(d, w, <<Chars("id"), w>>)
               body == Chars("{\"type\":\"run_sql\",\"args\":{\"sql\":\"") \o Rep(o, Esc) \o Chars("\"}}")
               t == Chars("curl --url \"${HASURA_URL}/v2/query\" --header \"x-hasura-admin-secret: ${HASURA_ADMIN_SECRET}\" --data ") \o Quote1(body)
               r == [d |-> d, t |-> w, cols |-> <<Chars("id"), w>>, text |-> o]
           IN SqlRule(r) = {} /\ CurlRule([r EXCEPT !.text = t]) = {}
(* a name written as it is only means itself if it is a plain word *)
Bare == w # <<>> => LET r == [d |-> "postgres", t |-> w, cols |-> <<w>>, text |-> Chars("CREATE INDEX ON ") \o w \o Chars(" (") \o w \o Chars(");")]
                    IN (SqlRule(r) = {}) = (\A i \in DOMAIN w : w[i] = "a" \/ (i > 1 /\ w[i] \in {"1", "$"}))
Emit == Show /\ Len(w) = MaxLen => PrintT(<<"NAME", ToJson(w)>>)
=============================================================================
