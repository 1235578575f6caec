#!/usr/bin/env python3
"""plant.py [--lanes N] [--no-check] [--recheck] [ID ...]: plants bugs to test the machinery.

For each bug of tools/bugs/*.py, in a private mount namespace where scratch copies stand in for
/repo, /verif and /opt/vp: applies the edits, builds, runs the stable tests, checks that the
demonstration fails with the change and passes without it, and runs the property's quick check.
--recheck: only the check, for bugs already found valid. Valid ones are written to /verif/seeded/<id>/, whether caught or not; results to work/plant.json."""
import importlib.util, json, os, shutil, subprocess, sys, glob, threading, time, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "b685b02"
L = "/tmp/lane"


def bugs():
    out = []
    sys.path.insert(0, os.path.join(V, "tools", "bugs"))
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs", "b_*.py"))):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.BUGS
    assert len({b["id"] for b in out}) == len(out), "duplicate id"
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def setup(n):
    d = "%s/%d" % (L, n)
    os.makedirs(d, exist_ok=True)
    for src, name in (("/repo", "repo"), ("/opt/vp", "vp")):
        sh("rm -rf %s/%s; cp -a %s %s/%s" % (d, name, src, d, name))
    if not os.path.exists(d + "/verif/target"):
        sh("mkdir -p %s/verif; cp -a %s/target %s/verif/target" % (d, V, d))
    sh("cd %s && tar cf - --exclude=./target --exclude=./work --exclude=./seeded --exclude=./.git . | tar xf - -C %s/verif; mkdir -p %s/verif/work" % (V, d, d))


def lane(n, cmd, env=None, timeout=1500):
    d = "%s/%d" % (L, n)
    full = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && mount --bind %s/vp /opt/vp && cd /repo && %s" % (d, d, d, cmd)
    return subprocess.run(["unshare", "-Urm", "bash", "-c", full], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          env=dict(os.environ, **(env or {})), timeout=timeout)


def original_lines(repo):
    """every line the patch removes must come from the base commit, and at least one must be removed"""
    diff = sh("git -C %s diff -U0" % repo).stdout
    f, n, bad = None, 0, []
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m and (m.group(2) or "1") != "0":
            a, c = int(m.group(1)), int(m.group(2) or 1)
            n += c
            for x in sh("git -C %s blame -s -L%d,+%d HEAD -- %s" % (repo, a, c, f)).stdout.splitlines():
                if not x.lstrip("^").startswith(BASE):
                    bad.append(x)
    return n, bad


def one(n, b, opts):
    d = "%s/%d" % (L, n)
    repo = d + "/repo"
    res = dict(id=b["id"], prop=b["prop"])
    sh("git -C %s checkout -q -- ." % repo)
    for f, old, new in b["edits"]:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            return dict(res, why="edit of %s matches %d times: %r" % (f, t.count(old), old[:80]))
        open(p, "w").write(t.replace(old, new))
    k, bad = original_lines(repo)
    if bad or not k:
        return dict(res, why="not original lines: %s" % (bad[:2] or "pure insertion"))
    diff = sh("git -C %s diff" % repo).stdout
    old = os.path.join(V, "seeded", b["id"], "patch.diff")
    if opts["recheck"] and os.path.exists(old) and open(old).read() == diff:
        return check(n, b, opts, dict(res, valid=True))
    demo = dict(sys=b["sys"], root=dict(cfg=b["cfg"], scale=b.get("scale", "1"), unit=1, ops=b["ops"], queries=b.get("queries", [])), asserts=b["asserts"])
    w = d + "/demo"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for f in ("demo.sh", "demo.py"):
        shutil.copy(os.path.join(V, "tools", "bugs", f), w)
    json.dump(demo, open(w + "/demo.json", "w"), indent=1)
    os.chmod(w + "/demo.sh", 0o755)
    good = sh("bash %s/demo.sh" % w, env=dict(os.environ, DEMO_VH=L + "/vh0"))
    if good.returncode:
        return dict(res, why="demo fails without the change", out=good.stdout[-3000:])
    x = lane(n, "bash /opt/vp/build.sh")
    if x.returncode:
        return dict(res, why="does not build", out=x.stdout[-2000:])
    x = lane(n, "bash /opt/vp/test.sh %s/t.json" % d)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    t = json.load(open(d + "/t.json"))
    passed = set(t.get("passed", []))
    if base - passed:
        return dict(res, why="tests fail: %s" % sorted(base - passed)[:4])
    x = lane(n, "cd /verif && bash setup.sh")
    if x.returncode:
        return dict(res, why="harness does not build", out=x.stdout[-2000:])
    x = lane(n, "bash %s/demo.sh" % w, env=dict(DEMO_VH="/verif/target/debug/vh"))
    if x.returncode == 0:
        return dict(res, why="demo passes with the change")
    res["demo"] = x.stdout.strip().splitlines()[:3]
    out = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(w, out)
    os.makedirs(out + "/kit/src")
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(V, "harness", f), out + "/kit")
    for f in os.listdir(os.path.join(V, "harness", "src")):
        shutil.copy(os.path.join(V, "harness", "src", f), out + "/kit/src")
    open(out + "/patch.diff", "w").write(diff)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
    res["valid"] = True
    return check(n, b, opts, res)


def check(n, b, opts, res):
    if not opts["nocheck"]:
        res["checks"] = {}
        for p in [b["prop"]] + b.get("also", []):
            t0 = time.time()
            x = lane(n, "cd /verif && python3 check.py %s" % p, env=dict(VERIF_SEED=opts["seed"], VERIF_TIER="quick"))
            res["checks"][p] = dict(rc=x.returncode, t=round(time.time() - t0), out=[l for l in x.stdout.splitlines() if "VIOLATION" in l or "at:" in l or "difference" in l or "ERROR" in l][:3])
        c = res["checks"][b["prop"]]
        res["caught"] = c["rc"] == 1
    return res


def main():
    a = sys.argv[1:]
    nl = int(a[a.index("--lanes") + 1]) if "--lanes" in a else 3
    opts = dict(nocheck="--no-check" in a, recheck="--recheck" in a, seed=a[a.index("--seed") + 1] if "--seed" in a else "1")
    ids = [x for i, x in enumerate(a) if not x.startswith("--") and not (i and a[i - 1] in ("--lanes", "--seed"))]
    todo = [b for b in bugs() if not ids or any(re.fullmatch(x, b["id"]) for x in ids)]
    os.makedirs(L, exist_ok=True)
    sh("cd %s && bash setup.sh && cp target/debug/vh %s/vh0" % (V, L))
    rf = os.path.join(V, "work", "plant.json")
    allr = json.load(open(rf)) if os.path.exists(rf) else {}
    lock = threading.Lock()

    def run(n):
        setup(n)
        while True:
            with lock:
                if not todo:
                    return
                b = todo.pop(0)
            try:
                r = one(n, b, opts)
            except Exception as e:
                r = dict(id=b["id"], prop=b["prop"], why="exception %s" % e)
            with lock:
                allr[b["id"]] = r
                json.dump(allr, open(rf, "w"), indent=1)
                print(b["id"], b["prop"], "CAUGHT" if r.get("caught") else ("MISSED" if r.get("valid") else "INVALID"), r.get("why", ""),
                      {p: (c["rc"], c["t"]) for p, c in r.get("checks", {}).items()}, flush=True)
                if r.get("out"):
                    print(r["out"], flush=True)
    ts = [threading.Thread(target=run, args=(n,)) for n in range(min(nl, len(todo)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
