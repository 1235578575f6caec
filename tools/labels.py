#!/usr/bin/env python3
"""labels.py [--lane N] [ID ...]: which properties does the specification say each planted bug's
demonstration violates? A planning aid: a bug whose effect a reader would put under another
property too should carry that label as well. Results in work/labels.json."""
import importlib.util, json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/tools/plant.py").read().replace("\nmain()\n", "\n")
P = {"__file__": V + "/tools/plant.py", "__name__": "plant"}
exec(compile(src, "plant", "exec"), P)
MOD = {"v1": "V1Trace", "v2": "V2Trace", "ra": "RATrace", "co": "COTrace"}
a = sys.argv[1:]
n = int(a[a.index("--lane") + 1]) if "--lane" in a else 7
ids = [x for i, x in enumerate(a) if not x.startswith("--") and not (i and a[i - 1] == "--lane")]
P["setup"](n)
d = "%s/%d" % (P["L"], n)
rf = V + "/work/labels.json"
res = json.load(open(rf)) if os.path.exists(rf) else {}
for s in sorted(glob.glob(V + "/seeded/*/patch.diff")):
    b = s.split("/")[-2]
    if (ids and b not in ids) or (not ids and b in res) or b.startswith("co-"):
        continue
    P["sh"]("git -C %s/repo checkout -q -- . && git -C %s/repo apply %s" % (d, d, s))
    D = json.load(open(os.path.dirname(s) + "/demo.json"))
    json.dump({"roots": [D["root"]]}, open(d + "/verif/work/one_r.json", "w"))
    x = P["lane"](n, "cd /verif && bash setup.sh >/dev/null 2>&1 && target/debug/vh --sys %s --cmd replay --prop '' --ops work/one_r.json --out work/one.nd && cd spec && TRACE=/verif/work/one.nd FOCUS= java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 2 -metadir /verif/work/md3 -noGenerateSpecTE -config %s.cfg %s.tla" % (D["sys"], MOD[D["sys"]], MOD[D["sys"]]))
    labs, steps = set(), []
    for l in x.stdout.splitlines():
        m = re.match(r'"VIOL (.*)"$', l.strip())
        if m:
            v = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
            steps.append(v)
            labs |= {p for p in v.get("props", []) if not p.startswith("K:")}
    res[b] = sorted(labs)
    json.dump(res, open(rf, "w"), indent=1)
    m = json.load(open(os.path.dirname(s) + "/meta.json"))
    print(b, m["property"], res[b], "" if m["property"] in labs else "***", "" if labs else x.stdout[-300:], flush=True)
