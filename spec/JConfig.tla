------------------------------ MODULE JConfig ------------------------------
(* Judges recorded runs of the commands by the rule of Config (C23). *)
EXTENDS Config, TLC, Json
CONSTANTS Buckets, Prop
Recs == ndJsonDeserialize("recs.ndjson")
N == Len(Recs)
VARIABLES b, i
Init == b \in 1..Buckets /\ i = 0
Next == /\ i * Buckets + b <= N
        /\ i' = i + 1 /\ b' = b
        /\ LET r == Recs[i * Buckets + b] IN \A w \in Rule(r) : PrintT(<<"REJECT", r.id, w>>)
Spec == Init /\ [][Next]_<<b, i>>
=============================================================================
