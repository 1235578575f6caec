"""What each property's check runs: bounded models and random histories per tier."""
SYSTEMS = {
    "v2": dict(mc="MarketV2MC", trace="V2Trace"),
    "v1": dict(mc="MarketV1MC", trace="V1Trace"),
    "ra": dict(mc="MarketRAMC", trace="RATrace"),
    "co": dict(mc="DeskMC", trace="DeskTrace"),
}


def mode(name, m, n, expand, **kw):
    d = dict(name=name, const={"Mode": '"%s"' % m, "MaxOffers": n}, expand=expand)
    d.update(kw)
    return d


PLAN = {}
V2MODE = dict(A01="core env", A02="env core", A03="core env", A04="core admin", A05="core admin", A06="admin core", A07="env core", A08="admin env", A09="core admin", A10="admin env", A11="core env")
for p, m in ((p, m.split()) for p, m in V2MODE.items()):
    PLAN[p] = dict(
        sys="v2",
        quick=dict(modes=[mode(x, x, 1, 130) for x in m], walks=48, len=70, dense=64, dlen=40, big=312 if p == "A09" else 0),
        thorough=dict(modes=[mode("core", "core", 2, 6000, workers=8), mode("env", "env", 1, 3000), mode("admin", "admin", 1, 3000)],
                      walks=160, len=150, dense=200, dlen=80, rounds=6, big=400 if p == "A09" else 0),
    )

V1MODE = dict(B01="core ops", B02="core life", B03="core life", B04="core ops", B05="core life", B06="ops core", B07="gov life", B08="ops life", B09="hook life", B10="core life", B11="gov hook", B12="core ops hook")
for p, m in ((p, m.split()) for p, m in V1MODE.items()):
    PLAN[p] = dict(
        sys="v1",
        quick=dict(modes=[mode(x, x, 1, 130) for x in m], walks=48, len=70, dense=64, dlen=40, big=106 if p == "B10" else 0),
        thorough=dict(modes=[mode("core", "core", 2, 1000), mode("ops", "ops", 2, 2000), mode("life", "life", 2, 2000), mode("gov", "gov", 1, 2000), mode("hook", "hook", 1, 2000)],
                      walks=160, len=150, dense=200, dlen=80, rounds=6, big=400 if p == "B10" else 0),
    )

RAMODE = dict(C01="core pay", C02="pay core", C03="core gov", C04="core gov", C05="pay ends", C06="ends halt", C07="halt ends", C08="core pay", C09="gov core", C10="ends core", C11="gov pay", C12="core pay")
for p, m in ((p, m.split()) for p, m in RAMODE.items()):
    PLAN[p] = dict(
        sys="ra",
        quick=dict(modes=[mode(x, x, 1, 130) for x in m], walks=48, len=70, dense=64, dlen=40, big=106 if p == "C10" else 0),
        thorough=dict(modes=[mode("core", "core", 1, 2000), mode("pay", "pay", 2, 2000), mode("ends", "ends", 1, 2000), mode("halt", "halt", 2, 3000), mode("gov", "gov", 1, 1500)],
                      walks=160, len=150, dense=200, dlen=80, rounds=6, big=400 if p == "C10" else 0),
    )

# crowds: sizes of the order books to fill before the random steps (see World::crowd in the harness)
for p in PLAN:
    PLAN[p]["quick"]["crowds"] = [13, 37] + ([106] if p in ("C05", "C06", "C10", "B10", "B11", "A01", "A04", "A07") else [])
    PLAN[p]["thorough"].update(crowds=[11, 13, 37, 52, 106] + ([220] if p[0] != "A" else []), clen=60)

for p in ("C06", "C07"):
    for tier, halts in (("quick", "FALSE"), ("thorough", "TRUE")):
        PLAN[p][tier]["live"] = [dict(module="MarketRALive", const={"Lim": 1, "Halts": halts})]

for p, m in dict(D01=["pay"], D02=["gate"]).items():
    PLAN[p] = dict(
        sys="co",
        quick=dict(modes=[mode(x, x, 1, 130) for x in m], walks=48, len=70, dense=64, dlen=40),
        thorough=dict(modes=[mode("pay", "pay", 2, 1000), mode("gate", "gate", 2, 2000)], walks=160, len=150, dense=200, dlen=80, rounds=6),
    )
