#!/usr/bin/env python3
"""check.py <property id>: decides one property (tier: VERIF_TIER, seed: VERIF_SEED)."""
import sys, os, traceback, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":  # a seed always gives the same inputs
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
from vlib import Ctx, CheckError

MODULES = {}
for ids, mod in ((("C01", "C02", "C03", "C04", "C05"), "exam"),
                 (("C07", "C08", "C09", "C10", "C24", "C25"), "scope"),
                 (("C11", "C12", "C13"), "plan"),
                 (("C14", "C15", "C16", "C17", "C18"), "trace"),
                 (("C19", "C20"), "pi"), (("C22",), "command"), (("C23",), "config"), (("C06",), "query"), (("C21",), "page"),
                 (tuple("C%d" % k for k in range(26, 34)), "browser"), (("C34", "C35"), "terminal"), (("C36",), "awsreal")):
    for i in ids:
        MODULES[i] = mod
NOBUILD = ("C26", "C27", "C28", "C29", "C30", "C31", "C33")  # only the pages of the report run


def main():
    prop = sys.argv[1]
    ctx = Ctx(prop)
    try:
        if prop not in NOBUILD:
            ctx.build()
        m = importlib.import_module(MODULES[prop])
        getattr(m, prop.lower())(ctx)
        rc = ctx.finish()
    except CheckError as e:
        print("CHECK ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


main()
