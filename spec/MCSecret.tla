----------------------------- MODULE MCSecret ------------------------------
(* gr as a program whose secret flows to the login only, run twice at once with
   two secrets (self-composition).  Every message may be shown on the terminal;
   TLC checks that the two runs show the same at every moment (noninterference),
   and that the rule refuses a program that shows the secret, or anything
   computed from it, at any one place.  Every plan is emitted. *)
EXTENDS Secret, TLC, Json
CONSTANTS Cmds, Modes, Spots
VARIABLES cmd, ex, verbose, wrong, flt, mode, leak, pos, x, y, st
vars == <<cmd, ex, verbose, wrong, flt, mode, leak, pos, x, y, st>>
plan == <<cmd, ex, verbose, wrong, flt, mode, leak>>
Places == {"err", "out", "file", "ev"}
Hash(s) == Len(s)     \* something computed from the secret
SX == <<"p", "q">>
SY == <<"r">>

Steps == <<"connect", "explain", "columns", "indexes">> \o (IF ex THEN <<"exec", "create", "exec", "drop">> ELSE <<>>)
Wrongs == {"", "denied", "bad-param", "unreachable", "syntax", "not-select", "no-parent"}
Blank(s) == [secret |-> s, exit |-> 0, err |-> <<>>, out |-> <<>>, file |-> <<>>, ev |-> <<>>]
Init == /\ cmd \in Cmds /\ ex \in BOOLEAN /\ verbose \in BOOLEAN
        /\ wrong \in Wrongs /\ (cmd = "hasura" => wrong # "bad-param")
        /\ flt \in (IF wrong = "" THEN {0} \cup (Spots \cap (1..Len(Steps))) ELSE {0})
        /\ mode \in (IF flt = 0 THEN {""} ELSE IF cmd = "hasura" THEN Modes ELSE Modes \ {"redirect-same", "redirect-other", "badjson"})
        /\ (flt = 1 => cmd # "hasura")
        /\ leak \in {"no"} \cup Places
        /\ pos = 1 /\ st = "run" /\ x = Blank(SX) /\ y = Blank(SY)
Say(z, t) == [z EXCEPT !.err = IF verbose THEN Append(@, t) ELSE @]
Ask(z) == [Say(z, Steps[pos]) EXCEPT !.ev = IF Steps[pos] = "connect" THEN @ ELSE Append(@, Steps[pos])]
Fail(z, t) == [z EXCEPT !.exit = 1, !.err = Append(@, t)]
Slip(z) == IF leak = "no" \/ pos # 2 THEN z ELSE [z EXCEPT ![leak] = Append(@, Hash(z.secret))]
Configure == pos = 1 /\ wrong \in {"bad-param", "unreachable", "denied"} /\ st = "run" /\ st' = "failed"
             /\ x' = Fail(x, wrong) /\ y' = Fail(y, wrong) /\ UNCHANGED <<plan, pos>>
Step == /\ st = "run" /\ pos <= Len(Steps) /\ ~(pos = 1 /\ wrong \in {"bad-param", "unreachable", "denied"})
        /\ IF wrong \in {"syntax", "not-select"} /\ pos = 2 THEN x' = Slip(Fail(x, wrong)) /\ y' = Slip(Fail(y, wrong)) /\ st' = "failed" /\ pos' = pos
           ELSE IF pos = flt /\ mode # "redirect-same" THEN x' = Slip(Fail(Ask(x), mode)) /\ y' = Slip(Fail(Ask(y), mode)) /\ st' = "failed" /\ pos' = pos
           ELSE x' = Slip(Ask(x)) /\ y' = Slip(Ask(y)) /\ st' = st /\ pos' = pos + 1
        /\ UNCHANGED plan
Report == /\ st = "run" /\ pos = Len(Steps) + 1 /\ UNCHANGED <<plan, pos>>
          /\ IF wrong = "no-parent" THEN st' = "failed" /\ x' = Fail(x, wrong) /\ y' = Fail(y, wrong)
             ELSE st' = "done" /\ x' = [x EXCEPT !.file = Append(@, "report")] /\ y' = [y EXCEPT !.file = Append(@, "report")]
Next == Configure \/ Step \/ Report
Spec == Init /\ [][Next]_vars

Seen == [panic |-> FALSE, leaks |-> <<>>, a |-> x, b |-> y]
Same == leak = "no" => Rule(Seen) = {}
(* the rule refuses every program that lets something computed from the secret out *)
Sharp == leak # "no" /\ pos > 2 => Rule(Seen) # {}
Emit == leak = "no" /\ pos = 1 /\ st = "run" => PrintT(<<"SEC", ToJson([cmd |-> cmd, ex |-> ex, v |-> verbose, wrong |-> wrong, mode |-> mode,
   flt |-> IF flt = 0 THEN [k |-> "", nth |-> 0] ELSE [k |-> Steps[flt], nth |-> Cardinality({q \in 1..flt : Steps[q] = Steps[flt]})]])>>)
=============================================================================
