------------------------------- MODULE MCAws -------------------------------
(* The reading of AWS as steps: settings are chosen, resolved in the order of their places, then RDS and PI are asked,
   any request may be refused.  All settings and outcomes are printed as plans. *)
EXTENDS Aws, TLC, Json
CONSTANTS Regions, Modes
VARIABLES s, at, asked, fault, res

Opt(S) == S \cup {""}
F(r, i, t) == [reg |-> r, id |-> i, token |-> t]
Files == {F("", "", ""), F("eu-west-1", "", ""), F("", "AKFILE", ""), F("ap-south-1", "AKWORK", "TOKF/+=")}
Keys == {[id |-> "", token |-> ""], [id |-> "AKENV", token |-> ""], [id |-> "AKENV", token |-> "TOKE=="]}
Init == /\ s \in [reg : Opt(Regions), def : Opt({"eu-west-3"}), prof : {"", "work"}, key : Keys, mock : BOOLEAN,
                  files : [{"default", "work"} -> Files]]
        /\ (s.prof = "" => s.files["work"] = F("", "", ""))
        /\ fault \in [svc : {"rds", "pi"}, mode : Modes]
        /\ at = "load" /\ asked = {} /\ res = ""
Load == /\ at = "load"
        /\ IF Usable(s) THEN at' = "rds" /\ res' = res ELSE at' = "end" /\ res' = "failed"
        /\ UNCHANGED <<s, asked, fault>>
Ask == /\ at \in {"rds", "pi"}
       /\ asked' = asked \cup {Host(s, at)}
       /\ IF fault.mode # "none" /\ fault.svc = at THEN at' = "end" /\ res' = "failed"
          ELSE IF at = "rds" THEN at' = "pi" /\ res' = res ELSE at' = "end" /\ res' = "written"
       /\ UNCHANGED <<s, fault>>
Next == Load \/ Ask
Spec == Init /\ [][Next]_<<s, at, asked, fault, res>>

(* with the mock nobody else is asked, without it the mock is never asked *)
Apart == \A h \in asked : (h = "localhost:8080") <=> s.mock
(* what is set in the environment decides, whatever the files say *)
EnvWins == /\ (s.reg # "" => Region(s) = s.reg)
           /\ (s.key.id # "" => Key(s) = s.key)
Honest == /\ (res = "written" => Usable(s) /\ fault.mode = "none")
          /\ (~Usable(s) => asked = {})
Emit == at = "end" => PrintT(<<"AWS", ToJson([s |-> s, fault |-> fault, res |-> res])>>)
=============================================================================
