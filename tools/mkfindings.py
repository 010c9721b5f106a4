"""known-findings.json: genuine defects of the code, repaired (fixed: suppresses nothing) or recorded (known)."""
import json, subprocess
log = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()}
FIXED = [
 ("C03", "fix: treat errors in a GraphQL response from Hasura as a failed query", "an examination whose GraphQL query failed with status 200 and an errors member was reported as measured"),
 ("C05", "fix: refuse an index option having line breaks instead of using a part of it", "-i $'users:name\\ntodos:title' was accepted and everything after the line break ignored"),
 ("C04", "fix: do not execute a query by EXPLAIN ANALYZE before knowing that it is one supported SELECT", "-q 'DELETE FROM users' was executed by EXPLAIN ANALYZE before being refused; an empty query crashed"),
 ("C09", "fix: succeed without suggestion when no index candidate exists", "a query whose only candidate columns are the primary key failed with an 'empty slice' error"),
]
KNOWN = []
try:
    exec(open("/verif/tools/findings_more.py").read())
except FileNotFoundError:
    pass
out = []
for p, subj, what in FIXED:
    out.append({"status": "fixed", "property": p, "commit": log[subj], "what": what, "entry": "fixed: property=%s %s %s" % (p, log[subj], what)})
out += [dict(k, status="known") for k in KNOWN]
json.dump(out, open("/verif/known-findings.json", "w"), indent=1)
