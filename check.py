#!/usr/bin/env python3
"""check.py ID [quick|thorough]      decide one property on /repo's current working tree
   check.py replay FILE              re-run the failing case stored in a replay file
   check.py setup                    warm the build cache

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.
Exit 3: the check itself could not run (build failure, timeout, killed)."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
SPECS = json.load(open(os.path.join(VERIF, "specs.json")))


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(3)


def env():
    e = dict(os.environ)
    e.update(PATH="/usr/local/go/bin:" + e.get("PATH", ""), HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local",
             GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", TZ="UTC", GOTRACEBACK="single")
    for k in list(e):
        if k.startswith("RAPID_"):
            del e[k]
    return e


def modfile(d):
    """The harness's go.mod: rapid plus whatever /repo's go.mod requires right now."""
    repo_mod = open(os.path.join(REPO, "go.mod")).read()
    req = repo_mod[repo_mod.index("require ("):]
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write("module verif/harness\n\ngo 1.23\n\nrequire (\n\tgithub.com/mrasu/GravityR v0.0.0\n\tpgregory.net/rapid v1.3.0\n)\n\n"
                "replace github.com/mrasu/GravityR => %s\n\n%s" % (REPO, req))
    with open(os.path.join(d, "go.sum"), "w") as f:
        f.write(open(os.path.join(REPO, "go.sum")).read())
        f.write(open(os.path.join(HARNESS, "extra.sum")).read())
    return os.path.join(d, "go.mod")


def overlay(d):
    """Shim files that export the command runners; they exist only for this build."""
    rep = {}
    root = os.path.join(HARNESS, "shims")
    for p in glob.glob(root + "/**/*.go.txt", recursive=True):
        rel = os.path.relpath(p, root)[:-len(".txt")]
        rep[os.path.join(REPO, rel)] = p
    # main.go embeds client/dist/assets/*
    path = os.path.join(d, "overlay.json")
    json.dump({"Replace": rep}, open(path, "w"))
    return path


def go_build(pkg, out, d):
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + modfile(d), "-overlay=" + overlay(d), "-o", out, "./" + pkg]
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=780)
    if r.returncode != 0 or not os.path.exists(out):
        die("harness does not build against /repo:\n" + r.stdout[-4000:])


def known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                j = json.loads(line)
                if j.get("property") == pid and j.get("status") == "known":
                    out.append(j)
    return out


def write_evidence(pid, tier, seed, spec, st, wall, nviol):
    cov = {
        "evaluations": st.get("evaluations", 0),
        "distinct_nontrivial": st.get("distinct_nontrivial", 0),
        "rule": spec["rule"],
        "samples": (st.get("samples") or [])[:12] or ["(none)"],
        "per_test": st.get("tests") or {},
        "classes": st.get("classes") or {},
        "known_finding_observations": st.get("known") or {},
        "excluded_by_known_finding": st.get("excluded") or {},
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)


def merge(a, b):
    if not a:
        return b
    a["evaluations"] += b["evaluations"]
    # keys are hashed per run; across seeds only a lower bound of distinctness is claimed: take sums of runs with
    # different seeds, whose cases differ by construction except for the smallest ones
    a["distinct_nontrivial"] += b["distinct_nontrivial"]
    a["samples"] = ((a.get("samples") or []) + (b.get("samples") or []))[:12]
    for k in ("classes", "tests", "known", "excluded"):
        for kk, v in (b.get(k) or {}).items():
            a.setdefault(k, {})
            a[k][kk] = a[k].get(kk, 0) + v
    a["failures"] = (a.get("failures") or []) + (b.get("failures") or [])
    return a


CRASH = re.compile(r"(fatal error: stack overflow|goroutine stack exceeds|fatal error: all goroutines are asleep|"
                   r"fatal error: concurrent map|^panic: |unexpected fault address|SIGSEGV)", re.M)


def run_go(pid, spec, binary, seed, scale, limit, d, failfile=None, only=None):
    cwd = tempfile.mkdtemp(prefix="run", dir=d)
    stats, journal = os.path.join(cwd, "stats.json"), os.path.join(cwd, "journal.txt")
    e = env()
    e.update(VERIF_STATS=stats, VERIF_JOURNAL=journal, VERIF_SCALE=str(scale), VERIF_LIMIT=str(limit), VERIF_BUDGET=str(int(limit * 0.4)), VERIF_REPO=REPO, VERIF_SCRATCH=cwd,
             VERIF_KNOWN=os.path.join(VERIF, "known_findings.jsonl"), VERIF_HARNESS=HARNESS)
    args = [binary, "-test.timeout=0", "-test.v=false", "-rapid.seed=%d" % seed, "-rapid.shrinktime=15s"]
    if failfile:
        args.append("-rapid.failfile=" + failfile)
    if only:
        args.append("-test.run=" + only)
    log = open(os.path.join(cwd, "log.txt"), "w+")
    p = subprocess.Popen(args, cwd=cwd, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        die("time budget of %ds used up: inconclusive" % limit)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    log.seek(0)
    out = log.read()
    if rc < 0:
        die("test process ended by signal %d\n%s" % (-rc, out[-3000:]))
    if not os.path.exists(stats):
        inp = open(journal).read() if os.path.exists(journal) else ""
        if rc in (1, 2) and inp and (CRASH.search(out) or rc == 1) and "test timed out" not in out:
            m = CRASH.search(out)
            frag = out[m.start():m.start() + 3000] if m else out[-2000:]
            return {"evaluations": 1, "distinct_nontrivial": 0, "samples": [], "failures": [
                {"test": inp.split("\n", 1)[0], "input": inp, "kind": "violation",
                 "message": "the process was brought down while handling this case (exit %d)\n%s" % (rc, frag)}]}, "", out
        die("test process exited %d without a result\n%s" % (rc, out[-3000:]))
    st = json.load(open(stats))
    ff = ""
    for f in sorted(glob.glob(cwd + "/testdata/rapid/**/*.fail", recursive=True)):
        ff = open(f).read()
    if rc not in (0, 1):
        die("test process exited %d\n%s" % (rc, out[-3000:]))
    if rc == 1 and not st.get("failures"):
        die("tests failed outside a generated case:\n" + out[-3000:])
    return st, ff, out


def run_node(pid, spec, seed, scale, limit, d):
    cwd = tempfile.mkdtemp(prefix="run", dir=d)
    stats = os.path.join(cwd, "stats.json")
    e = env()
    e.update(VERIF_STATS=stats, VERIF_CASE=os.path.join(cwd, "case.json"), VERIF_SCALE=str(scale), VERIF_LIMIT=str(limit), VERIF_BUDGET=str(int(limit * 0.4)), VERIF_REPO=REPO, VERIF_SCRATCH=cwd, VERIF_RUN_SEED=str(seed),
             NODE_PATH="/opt/veriftools/node/node_modules", VERIF_HARNESS=HARNESS, LC_ALL="en_US.UTF-8", LANG="en_US.UTF-8")
    log = open(os.path.join(cwd, "log.txt"), "w+")
    p = subprocess.Popen(["node", os.path.join(HARNESS, "client", "run.mjs"), spec["script"]], cwd=cwd, env=e, stdout=log,
                         stderr=subprocess.STDOUT, start_new_session=True)
    case, end, hung = os.path.join(cwd, "case.json"), time.time() + limit, False
    while True:
        try:
            rc = p.wait(timeout=2)
            break
        except subprocess.TimeoutExpired:
            # a case takes milliseconds
            hung = os.path.exists(case) and time.time() - os.stat(case).st_mtime > 90
            if hung or time.time() > end:
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
                if not hung:
                    die("time budget of %ds used up: inconclusive" % limit)
                break
    log.seek(0)
    out = log.read()
    if not os.path.exists(stats) and os.path.exists(case) and (hung or rc in (133, 134, -5, -6)):
        c = json.load(open(case))
        return {"evaluations": c["n"], "distinct_nontrivial": 0, "samples": [], "classes": {}, "tests": {c["test"]: c["n"]}, "known": {}, "excluded": {},
                "failures": [{"test": c["test"], "input": c["input"], "kind": "violation",
                              "message": "the page does not respond: a script runs forever" if hung else "the page uses up the memory"}]}, "", out
    if not os.path.exists(stats) or rc not in (0, 1):
        die("node exited %d\n%s" % (rc, out[-3000:]))
    return json.load(open(stats)), "", out


def seeds_for(tier, base, spec):
    if tier == "quick":
        return [base]
    return [(base * 1000003 + 7919 * i) % (2 ** 62) or 1 for i in range(spec.get("thorough_seeds", 4))]


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        os.makedirs(BUILD, exist_ok=True)
        d = tempfile.mkdtemp(prefix="setup", dir=BUILD)
        try:
            r = subprocess.run(["go", "build", "-modfile=" + modfile(d), "-overlay=" + overlay(d), "./..."], cwd=HARNESS,
                               env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(r.stdout)
            sys.exit(r.returncode)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        rep = json.load(open(sys.argv[2]))
        pid, tier = rep["property"], "quick"
    else:
        rep = None
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = SPECS[pid]
    try:
        base = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        base = 1
    seed0 = (abs(base) % (2 ** 62)) or 0x5eed
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix=pid + "_", dir=BUILD)
    try:
        binary = os.path.join(d, pid + ".test")
        if spec["kind"] == "go":
            go_build(spec["pkg"], binary, d)
        if rep is not None:
            if spec["kind"] == "go" and rep.get("failfile"):
                ff = os.path.join(d, "case.fail")
                open(ff, "w").write(rep["failfile"])
                st, _, out = run_go(pid, spec, binary, 1, 0.0001, 700, d, ff, "^" + "$/^".join(map(re.escape, rep["test"].split("/"))) + "$")
            elif spec["kind"] == "go":
                st, _, out = run_go(pid, spec, binary, rep["seed"], rep["scale"], 700, d)
            else:
                st, _, out = run_node(pid, spec, rep["seed"], rep["scale"], 700, d)
            viol = [f for f in (st.get("failures") or []) if f["kind"] == "violation"]
            print("replay: %s" % ("still fails: " + viol[0]["message"] if viol else "passes"))
            sys.exit(1 if viol else 0)
        total, ffs = None, []
        scale = spec.get("quick_scale", 1) if tier == "quick" else spec.get("thorough_scale", 10)
        limit = 780 if tier == "quick" else 7200
        for s in seeds_for(tier, seed0, spec):
            if spec["kind"] == "go":
                st, ff, out = run_go(pid, spec, binary, s, scale, limit, d)
            else:
                st, ff, out = run_node(pid, spec, s, scale, limit, d)
            total = merge(total, st)
            fails = st.get("failures") or []
            for f in fails:
                f["seed"], f["scale"], f["failfile"] = s, scale, ff
            if fails:
                break
        fails = total.get("failures") or []
        viol = [f for f in fails if f["kind"] == "violation"]
        write_evidence(pid, tier, base, spec, total, time.time() - t0, len(viol))
        for k in known(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if viol:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for f in viol:
                h = hashlib.sha256((f["test"] + f["input"] + f["message"][:200]).encode()).hexdigest()[:10]
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
                json.dump({"property": pid, "test": f["test"], "seed": f["seed"], "scale": f["scale"], "input": f["input"],
                           "message": f["message"], "failfile": f["failfile"],
                           "replay_with": "python3 /verif/check.py replay " + path}, open(path, "w"), indent=1)
                print("--- %s\ncase:\n%s\nfailure: %s" % (f["test"], f["input"][:3000], f["message"][:3000]))
                print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            sys.exit(1)
        if fails:
            die("; ".join(f["message"] for f in fails))
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" %
              (pid, tier, base, total["evaluations"], total["distinct_nontrivial"], time.time() - t0))
        if os.environ.get("VERIF_VERBOSE"):
            print(json.dumps(total.get("classes", {}), indent=1, sort_keys=True))
        sys.exit(0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception as ex:  # noqa
        import traceback
        traceback.print_exc()
        die(repr(ex))
