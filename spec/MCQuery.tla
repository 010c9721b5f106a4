------------------------------ MODULE MCQuery ------------------------------
(* All small output paths and runs: the machine explains, measures and reports
   the one query; the rule accepts it and refuses every run in which one of the
   texts was changed.  Paths are emitted for replay. *)
EXTENDS Query, TLC, Json
CONSTANTS MaxLen, MaxTargets
Chars == {"a", ".", "/", "_"}
VARIABLES path, examined, n, pos, ev
vars == <<path, examined, n, pos, ev>>
(* a path of a file: no empty, "." or ".." element *)
Elems(p) == LET ss == <<0>> \o SetToSortSeq({i \in DOMAIN p : p[i] = "/"}, LAMBDA x, y : x < y) \o <<Len(p) + 1>>
            IN [i \in 1..Len(ss) - 1 |-> SubSeq(p, ss[i] + 1, ss[i + 1] - 1)]
File(p) == p # <<>> /\ \A e \in ToSet(Elems(p)) : e # <<>> /\ e # <<".">> /\ e # <<".", ".">>
Init == /\ path \in {p \in UNION {[1..k -> Chars] : k \in 1..MaxLen} : File(p)}
        /\ examined \in BOOLEAN /\ n \in (IF examined THEN 0..MaxTargets ELSE {0})
        /\ pos = 0 /\ ev = <<>>
Send(k) == ev' = Append(ev, [k |-> k, same |-> TRUE, vars |-> "v"]) /\ pos' = pos + 1 /\ UNCHANGED <<path, examined, n>>
Next == \/ pos = 0 /\ Send("explain")
        \/ pos >= 1 /\ examined /\ pos <= 1 + n /\ Send("exec")
Spec == Init /\ [][Next]_vars
Done == pos = (IF examined THEN n + 2 ELSE 1)
Seen == [panic |-> FALSE, exit |-> 0, examined |-> examined, ev |-> ev, query |-> "q", sql |-> "s", vars |-> "v", path |-> path,
         rep |-> [query |-> "q", sql |-> "s", vars |-> "v"], opt |-> [query |-> "q", vars |-> "v", path |-> Offer(path, examined, <<"_", "e">>)]]
Accepted == Done => Rule(Seen) = {}
Sharp == Done =>
  /\ \A i \in DOMAIN ev : Rule([Seen EXCEPT !.ev[i].same = FALSE]) # {} /\ Rule([Seen EXCEPT !.ev[i].vars = "w"]) # {}
  /\ Rule([Seen EXCEPT !.rep.query = "x"]) # {} /\ Rule([Seen EXCEPT !.opt.query = "x"]) # {}
  /\ Rule([Seen EXCEPT !.opt.path = Offer(path, ~examined, <<"_", "e">>)]) # {}
(* the offered path stays in the directory and keeps the extension, and never is the file of the first run *)
PathLemma == ~examined => LET o == Offer(path, FALSE, <<"_", "e">>) IN
  /\ o # path /\ Ext(o) = Ext(path) /\ SubSeq(o, 1, LastSlash(o)) = SubSeq(path, 1, LastSlash(path)) /\ File(o)
Emit == Done => PrintT(<<"QRY", ToJson([path |-> path, examined |-> examined, n |-> n])>>)
=============================================================================
