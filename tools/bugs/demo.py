"""demo.py VH DEMO.json TMP: executes the history on the real contracts and checks the assertions.
Operations are numbered from 1; -1 is the last one."""
import json, subprocess, sys

vh, demo, tmp = sys.argv[1:4]
D = json.load(open(demo))
json.dump({"roots": [D["root"]]}, open(tmp + "/in.json", "w"))
subprocess.run([vh, "--sys", D["sys"], "--cmd", "replay", "--prop", "", "--ops", tmp + "/in.json", "--out", tmp + "/out.nd"], check=True)
R = [json.loads(l) for l in open(tmp + "/out.nd")]
S = [R[0]["d"]]
for r in R[1:]:
    s = dict(S[-1])
    for k, v in r["d"].items():
        s[k] = dict(s[k], **v) if isinstance(v, dict) and isinstance(s.get(k), dict) and k not in ("cfg", "pr", "hm", "q") else v
    for k, gone in r["x"].items():
        s[k] = {a: b for a, b in s[k].items() if a not in gone}
    S.append(s)


def ok(i):
    """was operation i accepted"""
    return R[i]["ok"]


def st(i):
    """the contracts' state after operation i"""
    return S[i]


def bal(i, who, d="ustars"):
    """a balance after operation i"""
    return S[i]["bal"][who][d]


def got(i, who, d="ustars"):
    """what operation i added to a balance"""
    return bal(i, who, d) - bal(i - 1, who, d) if i > 0 else bal(len(S) + i, who, d) - bal(len(S) + i - 1, who, d)


def ev(i, ty):
    """attributes of the events of that type emitted by operation i"""
    return [e["a"] for e in R[i]["ev"] if e["ty"] == ty]


def q(j):
    """answer to query j (from 0) in the final state"""
    return R[-1]["q"][j]["res"]


def out(i):
    return R[i]["out"]


bad = 0
for a, why in D["asserts"]:
    try:
        good = eval(a)
    except Exception as e:
        good = False
        why += " (%s: %s)" % (type(e).__name__, e)
    if not good:
        bad = 1
        print("FAILED: %s   [%s]" % (why, a))
for i, r in enumerate(R[1:], 1):
    if bad or "-v" in sys.argv:
        print("  %2d %s %s" % (i, json.dumps({k: v for k, v in r["op"].items() if k not in ("hit", "nid") or v}), "ok" if r["ok"] else "refused: " + r["err"]))
sys.exit(bad)
