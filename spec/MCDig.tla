------------------------------- MODULE MCDig -------------------------------
(* The whole dig run: windows searched one after the other, any of which may
   fail; then the report. *)
EXTENDS Jaeger, TLC, Json
CONSTANTS MaxEnd, Step, Modes
VARIABLES from, to, k, st, asked, fault
vars == <<from, to, k, st, asked, fault>>
Grid == {x \in 0..MaxEnd : x % Step = 0}
Init == /\ from \in {0, 1, Interval - 1} /\ to \in {g + e : g \in Grid, e \in {0, 1}}
        /\ k = 0 /\ st = "search" /\ asked = <<>> /\ fault = [at |-> 0, mode |-> ""]
W == Windows(from, to)
Search == /\ st = "search" /\ k < Len(W)
          /\ k' = k + 1 /\ asked' = Append(asked, W[k + 1]) /\ UNCHANGED <<from, to>>
          /\ \/ st' = "search" /\ UNCHANGED fault
             \/ st' = "failed" /\ \E m \in Modes : fault' = [at |-> k + 1, mode |-> m]
Report == st = "search" /\ k = Len(W) /\ st' = "reported" /\ UNCHANGED <<from, to, k, asked, fault>>
Next == Search \/ Report
Spec == Init /\ [][Next]_vars
Complete == st = "reported" =>
  /\ Covers(asked, from, to)
  /\ \A t \in {from, to - 1, (from + to) \div 2} : (from <= t /\ t < to) => Cardinality(SearchedBy(asked, t)) = 1
  /\ fault.at = 0
Sound == /\ Touching(asked) /\ \A t \in Grid : Cardinality(SearchedBy(asked, t)) <= 1
         /\ (st = "failed" => fault.at = Len(asked))
Emit == st \in {"failed", "reported"} => PrintT(<<"DIG", ToJson([len |-> to - from, fault |-> fault])>>)
=============================================================================
