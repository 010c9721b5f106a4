------------------------------ MODULE JClient --------------------------------
(* Judges what the report's pages showed and offered (C26-C33). *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Buckets, Prop
Q == INSTANCE SqlText
T == INSTANCE Timeline
D == INSTANCE Diagram
L == INSTANCE Loads
H == INSTANCE Shown
Recs == ndJsonDeserialize("recs.ndjson")
N == Len(Recs)
Rule(r) == CASE Prop = "C26" -> IF r.crash # "" THEN {"the page crashes"} ELSE Q!CommandRule(r)
             [] Prop = "C27" -> IF r.crash # "" THEN {"the page crashes"} ELSE Q!OfferRule(r)
             [] Prop = "C28" -> T!TimelineRule(r)
             [] Prop = "C29" -> D!TraceRule(r)
             [] Prop = "C30" -> L!LoadRule(r)
             [] Prop = "C31" -> H!ExamRule(r)
             [] Prop = "C32" -> H!OpenRule(r)
             [] Prop = "C33" -> H!TipRule(r)
VARIABLES b, i
Init == b \in 1..Buckets /\ i = 0
Next == /\ i * Buckets + b <= N
        /\ i' = i + 1 /\ b' = b
        /\ LET r == Recs[i * Buckets + b] IN \A w \in Rule(r) : PrintT(<<"REJECT", r.id, w>>)
Spec == Init /\ [][Next]_<<b, i>>
=============================================================================
