------------------------------- MODULE MCShown -------------------------------
(* All short texts over the characters that matter to markup: escaped, they are
   text and come back unchanged (lemma), raw ones only if they are harmless;
   printed for replay. *)
EXTENDS Shown, TLC, Json
CONSTANTS MaxLen, Show
Alphabet == {"<", ">", "&", "\"", "'", "a", "/", "!", ";", "="}
VARIABLE w
Init == w = <<>>
Next == Len(w) < MaxLen /\ \E c \in Alphabet : w' = Append(w, c)
Spec == Init /\ [][Next]_w
Around(t) == Chars("<div style='x'>A: ") \o t \o Chars("</div>")
Rec(t) == [crash |-> "", kind |-> "tip", tip |-> Around(t), plain |-> Around(Chars("tok1x")), pairs |-> <<[w |-> Chars("tok1x"), v |-> w]>>]
Lemma == /\ TipRule(Rec(EscapeHtml(w))) = {}
         /\ (\A i \in DOMAIN w : w[i] \notin {"<", "&"}) => TipRule(Rec(w)) = {}
         /\ (\E i \in 1..(Len(w) - 1) : w[i] = "<" /\ w[i + 1] \in {"a", "/", "!"}) => TipRule(Rec(w)) # {}
Emit == Show /\ Len(w) = MaxLen => PrintT(<<"TEXT", ToJson(w)>>)
=============================================================================
