"""Runs the check of each planted bug's property against it: python3 tools/runseeds.py [id ...]"""
import glob, json, os, subprocess, sys
res = {}
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob("/verif/seeded/*"))
for i in ids:
    d = "/verif/seeded/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    a = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if a.returncode:
        print(i, "does not apply"); continue
    try:
        r = subprocess.run(["python3", "/verif/check.py", p], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("   ")][:2]
    print(i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), v, flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-1500:])
