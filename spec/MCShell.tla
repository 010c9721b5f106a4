------------------------------ MODULE MCShell --------------------------------
(* All short texts over the characters that matter to a shell: written with
   either quoting they come back unchanged and alone (lemma); printed for replay. *)
EXTENDS Shell, TLC, Json
CONSTANTS MaxLen, Show
Alphabet == {"a", " ", "$", "`", "\"", "\\", "'", "\n", "(", "{", "-", "=", "*", "~", "#"}
VARIABLE w
Init == w = <<>>
Next == Len(w) < MaxLen /\ \E c \in Alphabet : w' = Append(w, c)
Spec == Init /\ [][Next]_w
A == <<"a">>
Lemma == /\ Words(<<"a", " ">> \o Quote2(w) \o <<" ">> \o Quote1(w) \o <<"\n">>) = <<A, w, w>>
         /\ Words(Quote1(w) \o Quote2(w)) = <<w \o w>>
         /\ Opts(Words(Chars("-q ") \o Quote2(w))) = <<[n |-> Chars("query"), v |-> w]>>
         /\ (\A i \in DOMAIN w : w[i] \in {"a", "-", "="}) /\ w # <<>> => Words(w) = <<w>>
Emit == Show /\ Len(w) = MaxLen => PrintT(<<"TEXT", ToJson(w)>>)
=============================================================================
