"""DESIGN.md from tools/design.md.in and the planted bugs."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ms = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob("seeded/*/meta.json"))]
rows = "\n".join("* `%s` (caught by %s): %s" % (i, m["property"], m["what_it_breaks"]) for i, m in ms)
t = open("tools/design.md.in").read().replace("@@NSEED@@", str(len(ms))).replace("@@SEEDS@@", rows)
open("DESIGN.md", "w").write(t)
