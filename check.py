#!/usr/bin/env python3
"""check.py <property> [--replay FILE] : decides one property.

1. builds the harness from /repo's working tree
2. TLC explores the bounded model of the specification (its invariants are checked there) and
   prints a shortest operation sequence to every state it reached
3. the harness executes on the real contracts: those sequences, trying every operation of the
   model's universe in each state, plus long seeded random histories; everything is logged
4. TLC validates the log against the specification, record by record
Exit 0: held; 1: VIOLATION; 2: the machinery failed.
"""
import json, os, re, sys, subprocess, time, random, shutil, collections, threading

V = os.path.dirname(os.path.abspath(__file__))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN, SYSTEMS  # noqa


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def log(msg):
    print("[%6.1fs] %s" % (time.time() - T0, msg), flush=True)


def tlc(module, cfg, work, env=None, workers=8, mem="6g", timeout=None, tag="tlc"):
    out = os.path.join(work, tag + ".out")
    md = os.path.join(work, tag + ".md")
    e = dict(os.environ)
    e.update(env or {})
    with open(out, "w") as f:
        try:
            r = subprocess.run(
                ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
                 "-metadir", md, "-noGenerateSpecTE", "-config", cfg, module + ".tla"],
                cwd=os.path.join(V, "spec"), env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


def states_of(out):
    m = None
    for l in open(out, errors="replace"):
        x = re.search(r"(\d+) states generated, (\d+) distinct states found", l)
        if x and not l.startswith("Progress"):
            m = (int(x.group(1)), int(x.group(2)))
    return m


def build(work):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(V, "target"))
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        die("the harness does not build against /repo")
    return os.path.join(V, "target", "debug", "vh")


def model(sysd, mode, work, res):
    """Model-checks one bounded universe; collects the states' operation sequences."""
    cfg = os.path.join(work, "mc_%s.cfg" % mode["name"])
    src = open(os.path.join(V, "spec", sysd["mc"] + ".cfg")).read()
    for k, v in mode.get("const", {}).items():
        src, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=).*$" % k, lambda m: "%s %s" % (m.group(1), v), src)
        if n != 1:
            die("constant %s not in %s.cfg" % (k, sysd["mc"]))
    open(cfg, "w").write(src)
    rc, out = tlc(sysd["mc"], cfg, work, workers=mode.get("workers", 4), tag="mc_" + mode["name"], timeout=mode.get("timeout", 800), mem=mode.get("mem", "6g"))
    uni, paths, err = None, [], None
    for l in open(out, errors="replace"):
        if l.startswith('"UNI '):
            uni = json.loads(json.loads(l)[4:])
        elif l.startswith('"ST '):
            x = json.loads(json.loads(l)[3:])
            paths.append((x["h"], x["f"]))
        elif l.startswith("Error:") and err is None:
            err = l.strip()
    res[mode["name"]] = dict(rc=rc, out=out, uni=uni, paths=paths, err=err, states=states_of(out))


def choose(items, k, rnd):
    """k of the model's states, chosen greedily so that they cover as many triples of abstract features as possible"""
    items = sorted(items, key=lambda x: json.dumps(x))
    if len(items) <= k:
        return [h for h, _ in items], None
    val = {}
    code = [tuple(val.setdefault((i, json.dumps(v)), len(val)) for i, v in enumerate(f)) for _, f in items]
    base = len(val) + 1
    tri = {}

    def triples(i):
        if i not in tri:
            c = code[i]
            n = len(c)
            tri[i] = [(c[a] * base + c[b]) * base + c[d] for a in range(n) for b in range(a + 1, n) for d in range(b + 1, n)]
        return tri[i]

    # one representative per feature vector: prefer short histories
    reps = {}
    for i in sorted(range(len(items)), key=lambda i: len(items[i][0])):
        reps.setdefault(code[i], i)
    pool = list(reps.values())
    seen, out = set(), []
    while pool and len(out) < k * 4 // 5:
        cand = rnd.sample(pool, min(30, len(pool)))
        best = max(cand, key=lambda i: sum(1 for t in triples(i) if t not in seen))
        seen.update(triples(best))
        out.append(best)
        pool.remove(best)
    left = [i for i in range(len(items)) if i not in set(out)]
    out += rnd.sample(left, min(k - len(out), len(left)))
    return [items[i][0] for i in out], len(reps)


def read_viols(out):
    v, err = [], None
    for l in open(out, errors="replace"):
        if l.startswith('"VIOL '):
            v.append(json.loads(json.loads(l)[5:]))
        elif l.startswith("Error:") and err is None:
            err = l.strip()
    return v, err


def path_to(recs, i):
    par = {}
    for j, r in enumerate(recs, 1):
        for k in r["kids"]:
            par[k] = j
    p = [i]
    while p[-1] in par:
        p.append(par[p[-1]])
    return list(reversed(p))


def known(prop):
    """class -> description of the listed, unrepaired findings of this property"""
    d = {}
    f = os.path.join(V, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: "):
                parts = dict(x.split("=", 1) for x in l[7:].split(" ", 2)[:2])
                if parts["property"] == prop:
                    d[parts["class"]] = l[7:].split(" ", 2)[2]
    return d


def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pl = PLAN[prop]
    sysd = SYSTEMS[pl["sys"]]
    tp = dict(pl[tier])
    work = os.path.join(V, "work", "%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)

    mc = {}
    threads = []
    live = {}
    if not replay:
        # the models are independent of /repo: check them while the harness builds, two at a time
        sem = threading.Semaphore(2)

        def run_model(m):
            with sem:
                model(sysd, m, work, mc)
        def run_live(m):
            with sem:
                src = open(os.path.join(V, "spec", m["module"] + ".cfg")).read()
                for k, v in m["const"].items():
                    src = re.sub(r"(?m)\b%s = .*$" % k, "%s = %s" % (k, v), src)
                cfg = os.path.join(work, "live.cfg")
                open(cfg, "w").write(src)
                rc, out = tlc(m["module"], cfg, work, workers=4, tag="live", timeout=800)
                live[m["module"]] = (rc, out)
        for f, m in [(run_model, m) for m in tp["modes"]] + [(run_live, m) for m in tp.get("live", [])]:
            th = threading.Thread(target=f, args=(m,))
            th.start()
            threads.append(th)
    vh = build(work)
    log("harness built")
    for th in threads:
        th.join()
    mc = {m["name"]: mc[m["name"]] for m in tp["modes"] if m["name"] in mc}
    for name, r in mc.items():
        if r["uni"] is None or not r["paths"] or (r["rc"] != 0):
            die("model %s: TLC rc=%s %s (see %s)" % (name, r["rc"], r["err"], r["out"]))
        log("model %s: %d states, %d transitions" % (name, r["states"][1], r["states"][0]))

    for name, (rc, out) in live.items():
        if rc:
            die("model %s: TLC rc=%s (see %s)" % (name, rc, out))
        log("model %s: %d states, its temporal properties hold" % (name, states_of(out)[1]))

    logs = []
    if replay:
        nd = os.path.join(work, "replay.nd")
        rp = json.load(open(replay))
        json.dump({"roots": [rp]}, open(os.path.join(work, "replay.json"), "w"))
        subprocess.run([vh, "--sys", pl["sys"], "--cmd", "replay", "--prop", prop, "--ops", os.path.join(work, "replay.json"), "--out", nd], check=True)
        logs.append(nd)
    else:
        rnd = random.Random(seed)
        first = True
        for m in tp["modes"]:
            r = mc[m["name"]]
            paths = r["paths"]
            r["total"] = len(paths)
            paths, r["classes"] = choose(paths, m["expand"], rnd)
            r["used"] = len(paths)
            # long path lists are replayed in chunks that one TLC run can hold
            per = max(1, tp.get("chunk", 60000) // max(1, len(r["uni"]["uni"])))
            for c in range(0, len(paths), per):
                pf = os.path.join(work, "paths_%s_%d.json" % (m["name"], c))
                json.dump(dict(r["uni"], paths=paths[c:c + per]), open(pf, "w"))
                nd = os.path.join(work, "log_%s_%d.nd" % (m["name"], c))
                walks = tp["walks"] if first else 0
                cmd = [vh, "--sys", pl["sys"], "--cmd", "gen", "--prop", prop, "--seed", str(seed), "--walks", str(walks),
                       "--len", str(tp["len"]), "--big", str(tp.get("big", 0) if first else 0),
                       "--crowds", ",".join(map(str, tp.get("crowds", []))) if first else "", "--clen", str(tp.get("clen", 30)),
                       "--dense", str(tp.get("dense", 0) if c == 0 else 0), "--dlen", str(tp.get("dlen", 40)), "--threads", "8", "--ops", pf, "--out", nd]
                x = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if x.returncode:
                    print(x.stderr[-3000:])
                    die("harness failed")
                logs.append(nd)
                first = False
        for extra in range(1, tp.get("rounds", 1)):
            nd = os.path.join(work, "log_r%d.nd" % extra)
            subprocess.run([vh, "--sys", pl["sys"], "--cmd", "gen", "--prop", prop, "--seed", str(seed + 7919 * extra), "--walks", str(tp["walks"]),
                            "--len", str(tp["len"]), "--big", str(tp.get("big", 0)), "--crowds", ",".join(map(str, tp.get("crowds", []))), "--clen", str(tp.get("clen", 30)), "--threads", "8", "--out", nd], check=True, stdout=subprocess.DEVNULL)
            logs.append(nd)
        sf = os.path.join(V, "scripts", pl["sys"] + ".json")
        roots = [x for x in (json.load(open(sf)) if os.path.exists(sf) else []) if prop in x["props"]]
        if roots:
            json.dump({"roots": [{k: v for k, v in x.items() if k != "props"} for x in roots]}, open(os.path.join(work, "scripts.json"), "w"))
            nd = os.path.join(work, "log_scripts.nd")
            x = subprocess.run([vh, "--sys", pl["sys"], "--cmd", "replay", "--prop", prop, "--ops", os.path.join(work, "scripts.json"), "--out", nd],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if x.returncode:
                print(x.stderr[-3000:])
                die("harness failed")
            logs.append(nd)
        log("real code executed: %d logs" % len(logs))

    known_cls = known(prop)
    viol, kf, total, env_bad = [], collections.Counter(), 0, []
    kf_sample = {}
    kinds = collections.Counter()
    samples, sales, hist = [], 0, 0
    for nd in logs:
        rc, out = tlc(sysd["trace"], sysd["trace"] + ".cfg", work, env={"TRACE": nd}, tag="trace", mem=tp.get("mem", "8g"))
        recs = [json.loads(l) for l in open(nd)]
        vs, err = read_viols(out)
        st = states_of(out)
        total += len(recs)
        for r in recs:
            kinds[(r["op"]["k"], r["ok"])] += 1
            if not r["kids"]:
                hist += 1
        if not samples:
            samples = [dict(op=r["op"], ok=r["ok"], events=r["ev"]) for r in recs if r["ok"] and r["ev"]][:3]
        for v in vs:
            r = recs[v["rec"] - 1]
            for p in v["props"]:
                if p == prop:
                    viol.append((nd, v["rec"], v, recs))
                elif p.startswith("K:" + prop + ":"):
                    cls = p.split(":", 2)[2]
                    if cls in known_cls:
                        kf[cls] += 1
                        kf_sample.setdefault(cls, r["op"])
                    else:
                        viol.append((nd, v["rec"], v, recs))
                elif p == "ENV":
                    env_bad.append((nd, v["rec"], v))
        if rc != 0 or err:
            text = open(out, errors="replace").read()
            if ("ttempted to" in text or "nested" in text) and "Overflow" not in text:
                # the recorded state is outside what the specification can describe
                viol.append((nd, None, {"props": [prop], "diff": "specification cannot evaluate a recorded step: %s (%s)" % (err, out)}, recs))
                shutil.copy(out, os.path.join(work, "undescribed.out"))
            else:
                die("trace validation: rc=%s %s (see %s)" % (rc, err, out))
        elif st is None or st[1] != len(recs):
            die("trace validation covered %s of %d records" % (st, len(recs)))
        if viol:
            break
        if len(logs) > 1:
            os.remove(nd)
    log("%d records validated, %d violations" % (total, len(viol)))

    cov = dict(
        states=sum(r["states"][1] for r in mc.values()),
        transitions=sum(r["states"][0] for r in mc.values()),
        traces_validated_against_impl=hist,
        operations_executed_on_real_code=total,
        model_states_replayed={k: "%d of %d" % (r["used"], r["total"]) for k, r in mc.items()},
        operations={"%s %s" % (k, "accepted" if ok else "refused"): n for (k, ok), n in sorted(kinds.items(), key=lambda x: str(x))},
        samples=samples,
        exhaustive=False,
        **({"liveness": {n: "%d states, temporal properties hold under fair blocks" % states_of(o)[1] for n, (_, o) in live.items()}} if live else {}),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=["cw-multi-test executes messages as the chain does (atomic, rolled back on error)",
                           "amounts in TLC are below 2^31; larger ones are covered by exactly scaled runs",
                           "histories outside the explored model universe and the seeded random walks are not covered"],
              wall_s=round(time.time() - T0, 1), violations=len(viol))
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)

    if env_bad and not viol:
        die("the environment model disagrees with the test chain: %s" % json.dumps(env_bad[0]))
    for cls, n in kf.items():
        print("KNOWN-FINDING: property=%s %s: %s (%d occurrences, e.g. %s)" % (prop, cls, known_cls[cls], n, json.dumps(kf_sample[cls])))
    if viol:
        nd, i, v, recs = min((x for x in viol), key=lambda x: len(path_to(x[3], x[1])) if x[1] else 999)
        rp = os.path.join(work, "violation.json")
        d = dict(property=prop, violation=v, system=pl["sys"])
        if i:
            p = path_to(recs, i)
            root = recs[p[0] - 1]
            d.update({k: x for k, x in root["out"].items() if k != "ok"})
            d["ops"] = [recs[j - 1]["op"] for j in p[1:]]
            last = recs[i - 1]
            d["observed"] = dict(ok=last["ok"], err=last.get("err", ""), events=last["ev"])
            print("  at: %s -> %s %s" % (json.dumps(last["op"]), "ok" if last["ok"] else "refused", last.get("err", "")))
            print("  difference: %s" % json.dumps(v.get("diff"))[:1500])
            if last.get("q"):
                d["queries"] = last["q"]
        json.dump(d, open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    print("OK property=%s records=%d states=%d wall=%.1fs" % (prop, total, cov["states"], time.time() - T0))
    if tier == "quick" or True:
        shutil.rmtree(work, ignore_errors=True)


main()
