------------------------------ MODULE JCommand -----------------------------
(* Judges recorded runs of every command by the rule of Command (C22). *)
EXTENDS Command, TLC, Json
CONSTANTS Buckets, Prop
Recs == ndJsonDeserialize("recs.ndjson")
N == Len(Recs)
VARIABLES b, i
Init == b \in 1..Buckets /\ i = 0
Next == /\ i * Buckets + b <= N
        /\ i' = i + 1 /\ b' = b
        /\ LET r == Recs[i * Buckets + b] IN \A w \in Rule(r) : PrintT(<<"REJECT", r.id, w>>)
Spec == Init /\ [][Next]_<<b, i>>
=============================================================================
