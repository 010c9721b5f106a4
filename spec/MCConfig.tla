------------------------------ MODULE MCConfig -----------------------------
(* All values up to a length over the characters that mean something to
   connection strings: reading back what was written gives every setting back,
   also with further parameters behind and a repeated key.  Every value is
   emitted and presented to gr as user, password and database. *)
EXTENDS Config, TLC, Json
CONSTANTS MaxLen, PairLen, Segs, MaxSegs
Chars == {"a", " ", "'", "\\", "=", "\n"}
VARIABLES v, w, base
Vals(n) == UNION {[1..k -> Chars] : k \in 0..n}
U == <<"u">>
D == <<"d">>
Init == \/ v \in Vals(MaxLen) /\ w = <<>> /\ base = <<>>
        \/ v \in Vals(PairLen) \ {<<>>} /\ w \in Vals(PairLen) \ {<<>>} /\ base = <<>>
        \/ v = <<>> /\ w = <<>> /\ base \in UNION {[1..k -> Segs] : k \in 1..MaxSegs}
Next == UNCHANGED <<v, w, base>>
Spec == Init /\ [][Next]_<<v, w, base>>
Text == Encode(<<[k |-> U, v |-> v], [k |-> D, v |-> w]>>)
RoundTrip == LET p == Parse(Text) IN Get(p, U) = v /\ Get(p, D) = w /\ Len(p) = 2
(* parameters appended behind are read too, and a key given there wins *)
Appended == LET p == Parse(Text \o <<" ", "s", "=">> \o Quoted(v) \o <<" ", "u", " ", "=", " ", "x">>)
            IN Get(p, <<"s">>) = v /\ Get(p, U) = <<"x">> /\ Get(p, D) = w
(* without escaping, some value would be read back differently *)
Naive(x) == U \o <<"=", "'">> \o x \o <<"'">>
NaiveFails == \E x \in Vals(1) : x # <<>> /\ Get(Parse(Naive(x)), U) # x
ASSUME NaiveFails
Emit == IF base # <<>> THEN PrintT(<<"CFG", ToJson([kind |-> "path", segs |-> base])>>)
        ELSE IF w = <<>> THEN PrintT(<<"CFG", ToJson([kind |-> "one", v |-> v])>>)
        ELSE PrintT(<<"CFG", ToJson([kind |-> "two", v |-> v, w |-> w])>>)
=============================================================================
