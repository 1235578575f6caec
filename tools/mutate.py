#!/usr/bin/env python3
"""mutate.py gen | paths | run [--lanes N] [--n N] [--seed S] [FILE-regex] | report

A mutation campaign over the contracts, to find behaviour the checks do not see.  `paths` model-checks
every mode once and keeps the model states to replay (they do not depend on the code); `run` takes
seeded samples of small source edits and, in scratch copies of /repo (see plant.py), keeps those that
compile and pass the stable tests, then executes each property's quick exploration on them until one
reports a violation.  Those that none reports are listed by `report`: each is equivalent or a gap.
State in work/mut."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = os.path.join(V, "work", "mut")
L = "/tmp/mlane"
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN, SYSTEMS  # noqa

FILES = {
    "v1": ("sg-marketplace", "contracts/marketplace/src", ["execute", "helpers", "query", "state", "sudo", "msg"]),
    "ra": ("stargaze-reserve-auction", "contracts/reserve-auction/src", ["execute", "helpers", "instantiate", "query", "state", "sudo"]),
    "v2": ("stargaze-marketplace-v2", "contracts/stargaze-marketplace-v2/src", ["execute", "helpers", "instantiate", "orders", "query", "state", "events"]),
    "co": ("sg-marketplace-common", "packages/sg-marketplace-common/src", ["address", "coin", "nft", "royalties", "sale"]),
}
ADDR = "sender seller buyer bidder creator owner recipient seller_recipient nft_recipient asset_recipient finder finders_fee_recipient admin"
SWAPS = [
    [r"info\.sender", r"ask\.seller", r"ask\.creator", r"bid\.bidder", r"bid\.creator", r"seller", r"buyer", r"bidder", r"nft_recipient",
     r"seller_recipient", r"recipient", r"ask\.asset_recipient\(\)", r"bid\.asset_recipient\(\)", r"auction\.seller", r"high_bid\.bidder", r"owner"],
    [r"ask\.price", r"bid\.price", r"collection_bid\.price", r"bid_price", r"ask_price", r"price", r"existing_bid\.price", r"auction\.reserve_price", r"high_bid\.coin"],
    [r"ask\.expires_at", r"bid\.expires_at", r"expires_at", r"expires"],
    [r"env\.block\.time", r"auction\.end_time", r"end_time"],
    [r"HookAction::Create", r"HookAction::Update", r"HookAction::Delete"],
    [r"config\.max_duration", r"config\.min_duration", r"config\.extend_duration"],
    [r"collection", r"token_id"],
]

CONDS = [("info", "info.funds.len() > 1"), ("info", "!info.funds.is_empty()"), ("finder", "finder.is_some()"), ("start_after", "start_after.is_some()"),
         ("token_id", "token_id == 0"), ("token_id", "token_id.len() > 1"), ("limit", "limit == 1")]
for _v in ("ask", "bid", "collection_bid"):
    CONDS += [(_v, _v + "." + c) for c in ("details.recipient.is_some()", "details.finder.is_some()", "details.price.amount.u128() > 1000")]
    CONDS += [(_v, _v + "." + c) for c in ("finders_fee_bps.is_some()", "price.u128() > 1000", "finders_fee_bps == Some(0)")]
    CONDS += [(_v, "info.sender != %s.%s" % (_v, "creator" if _v != "x" else ""))]
CONDS += [("ask", c) for c in ("ask.reserve_for.is_some()", "ask.funds_recipient.is_some()", "!ask.is_active", "ask.seller != info.sender", "ask.is_expired(&env.block)")]
CONDS += [("details", c) for c in ("details.recipient.is_some()", "details.finder.is_some()", "details.price.amount.u128() > 1000")]
CONDS += [("auction", c) for c in ("auction.seller_funds_recipient.is_some()", "auction.high_bid.is_some()", "auction.high_bid.is_none()", "auction.end_time.is_some()",
                                   "auction.end_time.map_or(false, |t| t.subsec_nanos() > 0)", "auction.reserve_price.amount.u128() > 1000")]
CONDS += [("config", c) for c in ("config.create_auction_fee.amount.is_zero()", "config.max_auctions_to_settle_per_block > 2")]
CONDS += [("params", c) for c in ("params.bid_removal_reward_percent.is_zero()", "params.trading_fee_percent.is_zero()", "params.ask_expiry.min > 100")]
CONDS += [("funds", "funds.0.len() > 1"), ("royalty_info", "royalty_info.is_some()"), ("env", "env.block.time.subsec_nanos() > 0")]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def mask(src):
    """comments, strings, attributes and test modules blanked out"""
    out = list(src)

    def blank(a, b):
        for i in range(a, b):
            if out[i] != "\n":
                out[i] = "\x00"
    for m in re.finditer(r"//[^\n]*|#\[[^\]]*\]|#!\[[^\]]*\]", src):
        blank(*m.span())
    i = src.find("#[cfg(test)]")
    if i >= 0:
        blank(i, len(src))
    return "".join(out)


def candidates(rel, src):
    ms = mask(src)
    outs = []

    def add(a, b, new, kind):
        if "\x00" in ms[a:b] or src[a:b] == new:
            return
        outs.append((a, b, new, kind))
    ops = {" < ": [" <= ", " > "], " <= ": [" < ", " > "], " > ": [" >= ", " < "], " >= ": [" > ", " < "], " == ": [" != "], " != ": [" == "],
           " && ": [" || "], " || ": [" && "], " + ": [" - "], " - ": [" + "], " * ": [" + "], " / ": [" * "]}
    for o, ns in ops.items():
        for m in re.finditer(re.escape(o), ms):
            for n in ns:
                add(m.start(), m.end(), n, "op")
    for m in re.finditer(r"(?<=[\s(])!(?=[a-z(])", ms):
        add(m.start(), m.end(), "", "not")
    for a, b in ((r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"Order::Ascending", "Order::Descending"),
                 (r"Order::Descending", "Order::Ascending"), (r"Bound::exclusive", "Bound::inclusive"), (r"Bound::inclusive", "Bound::exclusive"),
                 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"checked_sub", "checked_add"),
                 (r"checked_add", "checked_sub"), (r"mul_ceil", "mul_floor"), (r"mul_floor", "mul_ceil"), (r"\.plus_seconds", ".minus_seconds"),
                 (r"\bSome\([a-z_\.\(\)]+\)", "None"), (r"\bis_zero\(\)", "is_zero() == false"), (r"\.seconds\(\)", ".seconds().saturating_sub(1)"),
                 (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.is_empty\(\)", ".is_empty() == false"), (r"_or_default\(\)", "()")):
        for m in re.finditer(a, ms):
            add(m.start(), m.end(), b, "rep")
    for m in re.finditer(r"(?<![\w.])(\d+)(?=u64|u128|usize|[\s,);\]])(?!\.)", ms):
        if len(m.group(1)) < 8:
            add(m.start(1), m.end(1), str(int(m.group(1)) + 1), "num")
    for m in re.finditer(r"\bif (?!let)([^{};]+?) \{", ms):
        add(m.start(1), m.end(1), "true", "if")
        add(m.start(1), m.end(1), "false", "if")
    # ensure!(cond, err): condition replaced
    for m in re.finditer(r"\bensure!\(\s*", ms):
        i, d = m.end(), 0
        while not (ms[i] == "," and d == 0):
            d += ms[i] in "([{"
            d -= ms[i] in ")]}"
            i += 1
        add(m.end(), i, "true", "ensure")
    # statements
    for m in re.finditer(r"(?<=[;{}])\s*\n\s*(?=[a-z])(?!let |use |pub |fn |return |if |for |match |type |const |mod |impl |struct |enum |loop |while |else)", ms):
        i, d = m.end(), 0
        while i < len(ms):
            ch = ms[i]
            d += ch in "([{"
            d -= ch in ")]}"
            if d < 0 or (ch == ";" and d == 0):
                break
            i += 1
        if i < len(ms) and ms[i] == ";" and i - m.end() < 700:
            add(m.end(), i + 1, "", "stmt")
    # whole if-let / if blocks are covered by conditions; chained calls
    for m in re.finditer(r"\n\s*\.[a-z_:<>]+\(", ms):
        i, d = m.end() - 1, 0
        while i < len(ms):
            d += ms[i] in "([{"
            d -= ms[i] in ")]}"
            i += 1
            if d == 0:
                break
        if ms[i:i + 1] == "?":
            i += 1
        add(m.start(), i, "", "chain")
    for m in re.finditer(r"\bif let [^{;]+ \{", ms):
        # the block never entered
        e = re.match(r"if let (Some|Ok)\(([^)]*)\) = ([^{;]+?) \{", ms[m.start():m.end()])
        if e:
            a = m.start() + e.start(3)
            add(a, m.start() + e.end(3), "(%s).filter(|_| false)" % e.group(3).strip(), "iflet")
    # swaps
    for g in SWAPS:
        for x in g:
            for m in re.finditer(r"(?<![\w.&:])&?" + x + r"(?![\w:(.]|\s*:|\s*=[^=])", ms):
                a = m.start() + (1 if ms[m.start()] == "&" else 0)
                for y in g:
                    if y != x:
                        add(a, m.end(), y.replace("\\", ""), "swap")
    # a change that shows only in a particular situation: COND is over what is in scope
    fns = [m.start() for m in re.finditer(r"\bfn [a-z_]+", ms)]
    base = list(outs)
    for a, b, new, kind in base:
        f = max([x for x in fns if x < a], default=None)
        if f is None:
            continue
        if kind == "stmt" or (kind in ("if", "ensure") and new == "true") or kind in ("swap", "op"):
            body = ms[f:a]
            cs = [c for v, c in CONDS if re.search(r"\b%s(: |,|\)| =|\.)" % v, body)]
            for c in cs:
                old = src[a:b]
                if kind == "stmt":
                    add(a, b, "if !(%s) { %s }" % (c, old), "c-stmt")
                elif kind == "swap":
                    add(a, b, "(if %s { %s } else { %s })" % (c, new, old), "c-swap")
                elif kind in ("if", "ensure"):
                    add(a, b, "(%s) || %s" % (old, c), "c-cond")
                    add(a, b, "(%s) && !(%s)" % (old, c), "c-cond")
    return outs


def gen():
    os.makedirs(M, exist_ok=True)
    allm = []
    for sysn, (crate, d, fs) in FILES.items():
        for f in fs:
            rel = "%s/%s.rs" % (d, f)
            src = open("/repo/" + rel).read()
            for a, b, n, k in candidates(rel, src):
                allm.append(dict(sys=sysn, crate=crate, file=rel, a=a, b=b, old=src[a:b], new=n, kind=k, line=src.count("\n", 0, a) + 1,
                                 id=hashlib.sha1(("%s:%d:%d:%s" % (rel, a, b, n)).encode()).hexdigest()[:10]))
    json.dump(allm, open(M + "/all.json", "w"))
    import collections
    print(len(allm), collections.Counter((m["sys"], m["kind"]) for m in allm))


def paths():
    os.makedirs(M, exist_ok=True)
    done = set()
    for p, pl in PLAN.items():
        for m in pl["quick"]["modes"]:
            key = pl["sys"] + "_" + m["name"]
            f = "%s/paths_%s.json" % (M, key)
            if key in done or os.path.exists(f):
                continue
            done.add(key)
            src = open(V + "/check.py").read().split("\ndef main():")[0]
            g = {"__file__": V + "/check.py", "__name__": "x"}
            exec(compile(src, "check", "exec"), g)
            res = {}
            w = M + "/mc"
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            g["model"](SYSTEMS[pl["sys"]], m, w, res)
            r = res[m["name"]]
            ps, _ = g["choose"](r["paths"], m["expand"], random.Random(1))
            json.dump(dict(r["uni"], paths=ps), open(f, "w"))
            print(key, len(ps), flush=True)


def setup(n):
    d = "%s/%d" % (L, n)
    os.makedirs(d, exist_ok=True)
    for src, name in (("/repo", "repo"), ("/opt/vp", "vp")):
        sh("rm -rf %s/%s; cp -a %s %s/%s" % (d, name, src, d, name))
    if not os.path.exists(d + "/verif/target"):
        sh("mkdir -p %s/verif; cp -a %s/target %s/verif/target" % (d, V, d))
    sh("cd %s && tar cf - --exclude=./target --exclude=./work --exclude=./seeded --exclude=./.git . | tar xf - -C %s/verif; mkdir -p %s/verif/work" % (V, d, d))
    sh("rm -rf %s/verif/work/mut; mkdir -p %s/verif/work/mut; cp %s/paths_*.json %s/verif/work/mut/" % (d, d, M, d))


def lane(n, cmd, timeout):
    d = "%s/%d" % (L, n)
    full = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && mount --bind %s/vp /opt/vp && cd /repo && %s" % (d, d, d, cmd)
    p = subprocess.Popen(["unshare", "-Urm", "bash", "-c", full], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -9, "timeout"


def props_of(sysn):
    order = {"co": ["D01", "D02", "A09", "A01"], "v2": ["A01", "A05", "A10", "A03", "A06"], "v1": ["B02", "B10", "B08", "B07"], "ra": ["C01", "C06", "C11", "C10"]}[sysn]
    rest = [p for p in PLAN if PLAN[p]["sys"] == ("v2" if sysn == "co" else sysn)]
    return order + [p for p in rest if p not in order]


INNER = r'''
import json, os, subprocess, sys, re
sys.path.insert(0, "/verif/tools")
from plan import PLAN, SYSTEMS
props = sys.argv[1:]
W = "/verif/work/mut/w"
os.makedirs(W, exist_ok=True)
labels = {}
known = set()
for l in open("/verif/known-findings.txt"):
    m = re.match(r"known: property=(\S+) class=(\S+)", l)
    if m: known.add("K:%s:%s" % m.groups())
killed = None
todo = list(props)
while todo:
    p = todo.pop(0)
    pl = PLAN[p]; q = pl["quick"]
    first = True
    seen = set()
    for m in q["modes"]:
        nd = W + "/l.nd"
        r = subprocess.run(["/verif/target/debug/vh", "--sys", pl["sys"], "--cmd", "gen", "--prop", p, "--seed", "1", "--walks", str(q["walks"] if first else 0),
             "--crowds", ",".join(map(str, q.get("crowds", []))) if first else "", "--len", str(q["len"]), "--big", str(q.get("big", 0) if first else 0), "--dense", str(q["dense"]), "--dlen", str(q["dlen"]), "--threads", "3",
             "--ops", "/verif/work/mut/paths_%s_%s.json" % (pl["sys"], m["name"]), "--out", nd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        first = False
        if r.returncode:
            print(json.dumps(dict(res="harness-failed", prop=p, out=r.stdout[-500:]))); sys.exit()
        e = dict(os.environ, TRACE=nd)
        t = subprocess.run(["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx3g", "-Xss16m", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
             "tlc2.TLC", "-workers", "2", "-metadir", W + "/md", "-noGenerateSpecTE", "-config", SYSTEMS[pl["sys"]]["trace"] + ".cfg", SYSTEMS[pl["sys"]]["trace"] + ".tla"],
             cwd="/verif/spec", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
        for l in t.stdout.splitlines():
            if l.startswith('"VIOL '):
                v = json.loads(json.loads(l)[5:])
                for x in v["props"]:
                    if x not in known: seen.add(x)
        if t.returncode: seen.add("EVAL")
        if seen: break
    labels[p] = sorted(seen)
    if p in seen or "EVAL" in seen or any(x.startswith("K:" + p + ":") for x in seen):
        killed = p
        break
    for x in sorted(seen):
        x = x.split(":")[1] if x.startswith("K:") else x
        if x in todo:
            todo.remove(x)
            todo.insert(0, x)
print(json.dumps(dict(res="killed" if killed else "survived", by=killed, labels={k: v for k, v in labels.items() if v})))
'''


def one(n, m):
    d = "%s/%d" % (L, n)
    p = d + "/repo/" + m["file"]
    sh("git -C %s/repo checkout -q -- ." % d)
    src = open(p).read()
    if src[m["a"]:m["b"]] != m["old"]:
        return dict(res="stale")
    open(p, "w").write(src[:m["a"]] + m["new"] + src[m["b"]:])
    rc, out = lane(n, ". /opt/vp/shadow.sh && cargo check -p %s --lib --offline 2>&1 | tail -5; exit ${PIPESTATUS[0]}" % m["crate"], 300)
    if rc:
        return dict(res="nobuild")
    rc, out = lane(n, "timeout 250 bash /opt/vp/test.sh %s/t.json" % d, 400)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    try:
        passed = set(json.load(open(d + "/t.json")).get("passed", []))
    except Exception:
        passed = set()
    if base - passed:
        return dict(res="tests")
    rc, out = lane(n, "cd /verif && bash setup.sh", 400)
    if rc:
        return dict(res="harness-nobuild")
    open(d + "/verif/work/mut/inner.py", "w").write(INNER)
    rc, out = lane(n, "python3 /verif/work/mut/inner.py " + " ".join(props_of(m["sys"])), 2400)
    try:
        return json.loads(out.strip().splitlines()[-1])
    except Exception:
        return dict(res="error", out=out[-800:])


def run(a):
    nl = int(a[a.index("--lanes") + 1]) if "--lanes" in a else 2
    n = int(a[a.index("--n") + 1]) if "--n" in a else 100
    seed = a[a.index("--seed") + 1] if "--seed" in a else "1"
    rx = [x for i, x in enumerate(a) if not x.startswith("--") and not (i and a[i - 1].startswith("--"))]
    allm = json.load(open(M + "/all.json"))
    rf = M + "/res.json"
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    redo = "--redo" in a
    todo = [m for m in allm if (m["id"] not in res) and (not rx or re.search(rx[0], m["file"] + ":" + m["kind"]))]
    if redo:
        todo = [m for m in allm if res.get(m["id"], {}).get("res") == "survived" and (not rx or re.search(rx[0], m["file"] + ":" + m["kind"] + ":" + m["id"]))]
    random.Random(seed).shuffle(todo)
    todo = todo[:n]
    lock = threading.Lock()

    def work(k):
        setup(k)
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop()
            t0 = time.time()
            try:
                r = one(k, m)
            except Exception as e:
                r = dict(res="exception", out=str(e))
            with lock:
                res[m["id"]] = dict(r, m=m, t=round(time.time() - t0))
                json.dump(res, open(rf, "w"))
                if r["res"] not in ("nobuild", "tests"):
                    print(m["id"], r["res"], r.get("by"), r.get("labels"), m["file"].split("/")[1] + "/" + m["file"].split("/")[-1], m["line"], m["kind"],
                          repr(m["old"][:70]), "->", repr(m["new"][:40]), r.get("out", "")[-200:], "%ds" % (time.time() - t0), flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(nl)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def report():
    import collections
    res = json.load(open(M + "/res.json"))
    print(collections.Counter((r["m"]["sys"], r["res"]) for r in res.values()))
    for i, r in sorted(res.items(), key=lambda x: (x[1]["m"]["file"], x[1]["m"]["line"])):
        if r["res"] not in ("nobuild", "tests", "killed"):
            m = r["m"]
            print(i, r["res"], m["file"], m["line"], m["kind"], repr(m["old"][:160]), "->", repr(m["new"]), r.get("labels") or "", r.get("out", "")[:200])


if __name__ == "__main__":
    {"gen": gen, "paths": paths, "report": report}.get(sys.argv[1], lambda: run(sys.argv[2:]))()
