#!/usr/bin/env python3
"""mkseed.py FILE.py : builds seeded bugs described in FILE.py (a list SEEDS of dicts), validates them in /repo and
reports whether the property's quick check catches them.  Not used by any check.
 keys: id, property, edits [(file, old, new)], needs, breaks, pkg (dir of package), demo (Go test source, func TestSeedDemo)
 or node (JS demo source)."""
import json, os, subprocess, sys, difflib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO_DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off TZ=UTC
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export SCRATCH="$tmp"
printf '{"Replace":{"%s/PKG/seed_demo_test.go":"%s/demo_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 240s -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' ./PKG
'''
NODE_DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
export NODE_PATH=/opt/veriftools/node/node_modules
REPO=$(pwd) node "$here/demo.cjs"
'''

REPO = os.environ.get("MKREPO", "/repo")    # a scratch copy while vcheck works on /repo
CHECK = os.environ.get("MKCHECK", ROOT)     # a copy of /verif whose check.py names that copy

def sh(cmd, **kw):
    if REPO != "/repo":
        cmd = cmd.replace("bash /opt/vp/build.sh", "sed 's#/repo#%s#' /opt/vp/build.sh | bash" % REPO).replace("bash /opt/vp/test.sh /tmp/w/out.json", "sed 's#/repo#%s#' /opt/vp/test.sh > /tmp/w/mktest.sh; bash /tmp/w/mktest.sh /tmp/w/out.json" % REPO)
        cmd = cmd.replace("-C /repo", "-C " + REPO)
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def clean():
    sh("git -C /repo checkout -- .")

def tests():
    sh("bash /opt/vp/test.sh /tmp/w/out.json")
    st = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/w/out.json"))
    return [t for t in st["stable"] if t not in set(o["passed"])]

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    os.makedirs("/tmp/w", exist_ok=True)
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo not clean"
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, "old text found %d times" % t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            clean()
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            if "demo" in s:
                open(os.path.join(d, "demo_test.go"), "w").write(s["demo"])
                open(os.path.join(d, "demo.sh"), "w").write(GO_DEMO.replace("PKG", s["pkg"]))
            else:
                open(os.path.join(d, "demo.cjs"), "w").write(s["node"])
                open(os.path.join(d, "demo.sh"), "w").write(NODE_DEMO)
            r0 = sh("bash %s/demo.sh" % d, cwd=REPO)
            a = sh("git -C /repo apply %s/patch.diff" % d)
            b = sh("bash /opt/vp/build.sh")
            miss = tests()
            r1 = sh("bash %s/demo.sh" % d, cwd=REPO)
            c = sh("python3 %s/check.py %s quick" % (CHECK, s["property"]))
        finally:
            clean()
        ok = r0.returncode == 0 and a.returncode == 0 and b.returncode == 0 and not miss and r1.returncode != 0
        caught = c.returncode == 1 and "VIOLATION property=" + s["property"] in c.stdout
        print("%-34s valid=%s caught=%s" % (s["id"], ok, caught), flush=True)
        if not ok:
            print("  demo clean rc=%d apply=%d build=%d missing=%s demo patched rc=%d" % (r0.returncode, a.returncode, b.returncode, miss[:5], r1.returncode))
            print((r0.stdout + r0.stderr)[-1500:], (b.stdout + b.stderr)[-800:], (r1.stdout + r1.stderr)[-600:])
        elif "[build failed]" in r1.stdout or "[setup failed]" in r1.stdout:
            print("  demo fails to build with the patch:", r1.stdout[-500:])
        if not caught:
            print("  check:", c.returncode, c.stdout[-600:])
main()
