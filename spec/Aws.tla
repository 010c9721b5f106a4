-------------------------------- MODULE Aws --------------------------------
(* Which AWS `gr db dig performance-insights` reads (C36).  Settings s:
     reg, def        AWS_REGION, AWS_DEFAULT_REGION ("" if not set)
     prof            AWS_PROFILE ("" if not set: the profile is "default")
     key             [id, token] of AWS_ACCESS_KEY_ID.. and AWS_SESSION_TOKEN, id "" if not set
     files           for the profiles "default" and "work": [reg, id, token]
     mock            --use-mock                                             *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

First(xs) == LET is == {i \in DOMAIN xs : xs[i] # ""} IN IF is = {} THEN "" ELSE xs[CHOOSE i \in is : \A j \in is : i <= j]
Profile(s) == s.files[IF s.prof = "" THEN "default" ELSE s.prof]
(* the environment is preferred to the files *)
Region(s) == First(<<s.reg, s.def, Profile(s).reg>>)
Key(s) == IF s.key.id # "" THEN s.key ELSE [id |-> Profile(s).id, token |-> Profile(s).token]
Usable(s) == s.mock \/ (Region(s) # "" /\ Key(s).id # "")
Suffix(reg) == IF reg \in {"cn-north-1", "cn-northwest-1"} THEN ".amazonaws.com.cn" ELSE ".amazonaws.com"
Host(s, svc) == IF s.mock THEN "localhost:8080" ELSE svc \o "." \o Region(s) \o Suffix(Region(s))

(* a request q: svc (rds or pi), host, conn (whose certificate was asked for), key, token, region, service, sig *)
RequestOk(s, q) ==
  /\ q.host = Host(s, q.svc)
  /\ s.mock \/ (/\ q.conn = q.host /\ q.sig = "right" /\ q.service = q.svc /\ q.region = Region(s)
                /\ q.key = Key(s).id /\ q.token = Key(s).token)
(* r: s, reqs, elsewhere (hosts of other attempts), faulty, exit, file, rep (the report), ref (that of the mocked run), leaks, panic *)
Rule(r) ==
  IF r.panic THEN {"crashed"} ELSE
  (IF \A i \in DOMAIN r.reqs : r.reqs[i].host = Host(r.s, r.reqs[i].svc) THEN {} ELSE {"a request goes to another place"})
  \cup (IF \A i \in DOMAIN r.reqs : RequestOk(r.s, r.reqs[i]) THEN {} ELSE {"a request is not that of the configured account and region"})
  \cup (IF r.elsewhere = <<>> THEN {} ELSE {"another host is contacted"})
  \cup (IF r.leaks = <<>> THEN {} ELSE {"the secret key is shown"})
  \cup (IF ~Usable(r.s)
        THEN (IF r.reqs = <<>> THEN {} ELSE {"something is read without settings for it"})
             \cup (IF r.exit # 0 /\ r.file # "written" THEN {} ELSE {"succeeds without region or credentials"})
        ELSE IF r.faulty THEN (IF r.exit # 0 /\ r.file # "written" THEN {} ELSE {"succeeds though a request failed"})
        ELSE (IF r.exit = 0 /\ r.file = "written" THEN {} ELSE {"fails with valid settings"})
             \cup (IF r.rep = r.ref THEN {} ELSE {"the report is another one than that of the same data read elsewhere"}))
=============================================================================
