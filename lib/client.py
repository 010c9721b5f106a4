"""Runs the pages of a report (the real sources of /repo/client) without a browser: harness/client."""
import json, os, subprocess, threading
import vlib
from vlib import CheckError

RUN = os.path.join(vlib.VERIF, "harness", "client", "run.mjs")


def run(ctx, scens, par=8):
    """{id: [observation after loading, after each step ...]}; scens: {id, entry, param, steps}."""
    scens = list(scens)
    ids = [s["id"] for s in scens]
    if len(set(ids)) != len(ids):
        raise CheckError("duplicate page id")
    par = max(1, min(par, len(scens) // 20 + 1))
    out, err = {}, []

    def work(part):
        p = subprocess.run(["node", RUN, vlib.REPO], input="".join(json.dumps(s) + "\n" for s in part), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, env=dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", LANG="en_US.UTF-8"))
        if p.returncode != 0:
            err.append(p.stderr[-2000:])
            return
        for line in p.stdout.split("\n"):
            if line:
                o = json.loads(line)
                out[o["id"]] = o["obs"]
    ts = [threading.Thread(target=work, args=(scens[k::par],)) for k in range(par)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise CheckError("the pages could not be run: " + err[0])
    if set(out) != set(ids):
        raise CheckError("pages were lost")
    ctx.log("ran %d pages, %d observations" % (len(out), sum(map(len, out.values()))))
    return out
