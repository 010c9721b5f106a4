"""Makes and confirms planted bugs: python3 tools/seedlib.py FILE.py [id ...]; FILE defines SEEDS."""
import json, os, re, shutil, subprocess, sys

WT = "/tmp/seedwt"
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, nonzero otherwise; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TZ=UTC
mkdir -p client/dist/assets; [ -e client/dist/assets/.dummy ] || touch client/dist/assets/.dummy
cp go.mod go.sum "$t"/
echo '{"Replace":{"'$PWD'/%(pkg)s/zz_demo_test.go":"'$d'/demo_test.go"}}' > "$t/o.json"
go test -modfile "$t/go.mod" -overlay "$t/o.json" -vet=off -count=1 -timeout 200s -run '^TestSeedDemo$' ./%(pkg)s
'''
PAGE = '''#!/bin/bash
# exits 0 when the page shows what it should, nonzero otherwise; run with cwd = the repository
exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests():
    sh("sed 's#cd /repo#cd %s#' /opt/vp/test.sh > /tmp/seedtest.sh" % WT)
    p = sh("bash /tmp/seedtest.sh /tmp/seedtest.json")
    o = json.load(open("/tmp/seedtest.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return stable - set(o["passed"])


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        d = os.path.join(os.environ.get("SEEDS", "/verif/seeded"), s["id"])
        if os.path.exists(d) and not want:
            continue
        shutil.rmtree(WT, ignore_errors=True)
        sh("git clone -q /repo %s" % WT)
        sh("mkdir -p client/dist/assets; touch client/dist/assets/.dummy", WT)
        os.makedirs(d, exist_ok=True)
        if s.get("page"):
            open(d + "/demo.sh", "w").write(PAGE)
            open(d + "/demo.py", "w").write(s["demo"])
            shutil.rmtree(d + "/client", ignore_errors=True)
            shutil.copytree(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "client"), d + "/client")
        else:
            open(d + "/demo.sh", "w").write(DEMO % {"pkg": s["pkg"]})
            open(d + "/demo_test.go", "w").write(s["demo"])
        p0 = sh("bash %s/demo.sh" % d, WT)
        bad = None
        if p0.returncode != 0:
            bad = "demo fails on the unchanged tree:\n" + p0.stdout[-1500:]
        for f, a, b in s["edits"]:
            t = open(os.path.join(WT, f)).read()
            if t.count(a) != 1:
                bad = "edit does not apply: %s (%d)" % (f, t.count(a))
                break
            open(os.path.join(WT, f), "w").write(t.replace(a, b))
        if not bad:
            p = sh("go build ./... && go vet ./... >/dev/null; go build ./...", WT)
            if p.returncode != 0:
                bad = "does not build:\n" + p.stdout[-1500:]
        if not bad:
            miss = tests()
            if miss:
                bad = "stable tests fail: %s" % sorted(miss)[:5]
        if not bad:
            p1 = sh("bash %s/demo.sh" % d, WT)
            if p1.returncode == 0:
                bad = "demo passes with the bug"
            elif s.get("page"):
                if p1.returncode != 1 or "Traceback" in p1.stdout:
                    bad = "demo broke instead of failing:\n" + p1.stdout[-800:]
                else:
                    print(p1.stdout.strip()[:200])
            elif "TestSeedDemo" not in p1.stdout or "build failed" in p1.stdout:
                bad = "demo broke instead of failing:\n" + p1.stdout[-800:]
        if bad:
            print(s["id"], "REJECTED:", bad)
            shutil.rmtree(d)
            continue
        diff = sh("git diff", WT).stdout
        # a change of lines the repairs added does not count
        own = []
        for f in sorted({e[0] for e in s["edits"]}):
            bl = sh("git blame -s -l HEAD -- " + f, WT).stdout.splitlines()
            at = 0
            for l in sh("git diff -U0 -- " + f, WT).stdout.splitlines():
                h = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
                if h:
                    for k in range(int(h.group(1)), int(h.group(1)) + int(h.group(2) or 1)):
                        c = bl[k - 1].split()[0].lstrip("^")
                        own.append(sh("git merge-base --is-ancestor %s a8edfc9" % c, WT).returncode == 0)
        if not any(own):
            print(s["id"], "REJECTED: changes no original line")
            shutil.rmtree(d)
            continue
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"], "ok")
    shutil.rmtree(WT, ignore_errors=True)


main()
