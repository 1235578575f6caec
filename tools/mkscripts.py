#!/usr/bin/env python3
"""Fixed histories replayed by the checks besides the random ones -> scripts/<system>.json.
They pin the listed findings and the repaired defects."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def c(a, d="ustars"): return [{"d": d, "a": a}] if a else []
RA = dict(fb="faira", tf=2000000, mi=1000000, mn=10, mx=100, ex=5, fd="ustars", fa=0, lim=2, th=30, bu=15, po=20, m=[{"d": "ustars", "a": 1}])
T = [("colla", "0", "alice"), ("colla", "1", "bobby"), ("colla", "10", "alice"), ("colla", "2", "bobby"), ("collb", "1", "alice"), ("collb", "7", "bobby")]
def tk(i): return dict(co=T[i][0], tk=T[i][1])
def auction(i, a=10, du=10, fr=""): return [dict(k="Appr", s=T[i][2], ex=-1, **tk(i)), dict(k="Create", s=T[i][2], f=[], d="ustars", a=a, du=du, fr=fr, **tk(i))]
def bid(i, u, a): return dict(k="Bid", s=u, f=c(a), **tk(i))
def settle(i, u="david"): return dict(k="Settle", s=u, f=[], **tk(i))
def tick(ms): return dict(k="Tick", s="", dt=ms)
END, BEGIN = dict(k="End", s=""), dict(k="Begin", s="")
def info(co, **kw): return dict(k="SetInfo", s="admin", co=co, info=dict(dict(ok=True, stt=-1, rr="royal", rs=5000000, ft=False), **kw))
def ra(props, ops, **cfg): return dict(props=props, cfg=dict(RA, **cfg), scale="1", unit=1, ops=ops)
ras = [
 # one unsettleable auction holds up the end of every block
 ra(["C06"], auction(0) + auction(1) + auction(4) + [bid(0, "carol", 10), bid(1, "carol", 10), bid(4, "carol", 10), info("colla", ft=True), tick(10000), END, tick(5000), END, info("colla"), END, END]),
 # fees exceed a tiny bid
 ra(["C05", "C06"], auction(0, 1) + auction(4, 20) + [bid(0, "carol", 1), bid(4, "carol", 20), tick(10000), settle(0), END, settle(4), END]),
 # no trading fee
 ra(["C05", "C06"], auction(0, 100) + auction(1, 100) + [bid(0, "carol", 100), bid(1, "carol", 100), tick(10000), settle(0), END], tf=0),
 # a collection that does not answer the collection-info query
 ra(["C05", "C06"], auction(0, 100) + auction(1, 100) + [bid(0, "carol", 100), bid(1, "carol", 100), info("colla", ok=False), tick(10000), settle(0), END]),
 # two auctions ending within one second, the block between them
 ra(["C05", "C06"], auction(0) + auction(1) + [bid(0, "carol", 10), tick(600), bid(1, "carol", 10), tick(9700), END, settle(1)]),
 # a halt window outlives the first end of a block after it
 ra(["C07"], auction(0, du=40) + auction(1, du=20) + [BEGIN, tick(5000), BEGIN, END, bid(0, "carol", 10), bid(1, "carol", 10), tick(35000), BEGIN, END, tick(6000), BEGIN, END, settle(0), tick(14000), BEGIN, END,
     tick(20000), BEGIN, END, settle(0)]),
 # a halt window outlives an end of a block that may settle nothing
 ra(["C07"], auction(0, du=40) + [BEGIN, bid(0, "carol", 10), tick(35000), BEGIN, END, tick(25000), BEGIN, dict(k="UpdParams", s="", p=dict(lim=0)), END, dict(k="UpdParams", s="", p=dict(lim=2)), END, settle(0)]),
 # too large a creation fee
 ra(["C01", "C09"], auction(0)[:1] + [dict(auction(0)[1], f=c(x)) for x in (20, 9, 0, 10)], fa=10),
]
json.dump(ras, open(os.path.join(V, "scripts", "ra.json"), "w"), indent=0)
# ---- V2: the lowest ask cannot pay its fees and blocks every collection bid
def v2(props, ops, **cfg): return dict(props=props, cfg=dict(dict(fm="feemgr", rr="regis", pf=1000, mr=1000, mk=4000, tk=1000, dd="ustars"), **cfg), scale="1", ops=ops)
O = dict(d="ustars", rc="", fi="")
v2s = [
 v2(["A07"], [dict(k="ApprAll", s="alice", co="colla"), dict(k="SetFee", s="admin", f=[], d="ustars", a=5), dict(k="SetAsk", s="alice", f=c(5), co="colla", tk="1", a=1, **O),
              dict(k="SetCBid", s="bobby", f=c(50), co="colla", a=50, **O), dict(k="SetBid", s="bobby", f=c(50), co="colla", tk="1", a=50, **O)]),
]
json.dump(v2s, open(os.path.join(V, "scripts", "v2.json"), "w"), indent=0)
# ---- V1
def v1(props, ops, queries=(), **cfg):
    pre = [dict(k="Appr", s=s, co="colla", tk=t, ex=-1) for s, t in (("alice", "0"), ("bobby", "1"), ("alice", "2"))]
    return dict(props=props, cfg=dict(dict(tf=200, an=60, ax=5000, bn=60, bx=2000, mf=1000, mn=1, sd=100, rw=500, lf=0, ops=["opera"], sh="", ht=False), **cfg), scale="1", unit=1, ops=pre + ops, queries=list(queries))
def vask(s, t, a, ex=1000000, **kw): return dict(dict(k="SetAsk", s=s, f=[], co="colla", tk=t, ty="fixed_price", a=a, d="ustars", fr="", rf="", ff=-1, ex=ex), **kw)
def vbid(s, t, a, ex=1000000, **kw): return dict(dict(k="SetBid", s=s, f=c(a), co="colla", tk=t, ty="auction", fi="", ff=-1, ex=ex), **kw)
def vcb(s, a, ex=1000000): return dict(k="SetCBid", s=s, f=c(a), co="colla", ff=-1, ex=ex)
def vop(k, s, **kw): return dict(dict(k=k, s=s, f=[], co="colla"), **kw)
def vq(q, **kw): return dict(dict(q=q, co="colla", tk="0", us="alice", inact=-1, lim=-1, cur=0, ca=0, ct="0", cu="", cc="", page=0), **kw)
SALES = ["B01", "B02", "B03", "B05", "B12"]
v1s = [
 # payments that round down, or to nothing
 v1(SALES, [vask("alice", "0", 33), vbid("carol", "0", 33), vask("bobby", "1", 1), vbid("carol", "1", 1)]),
 v1(SALES, [vask("alice", "0", 10, ff=10), vbid("carol", "0", 10, fi="findx"), vbid("carol", "1", 7, ff=100), vop("AccBid", "bobby", tk="1", us="carol", fi="findx")], tf=0),
 v1(SALES, [info("colla", rs=100000000), vask("alice", "0", 50), vbid("carol", "0", 50), info("colla", rs=98000000), vcb("carol", 100), vop("AccCBid", "bobby", tk="1", us="carol", fi="")], tf=200),
 # stale bids with a reward of nothing, and of everything
 v1(["B01", "B06"], [vbid("carol", "0", 10, ex=100000), vcb("david", 3, ex=100000), dict(k="Tick", s="", dt=199999), vop("StaleBid", "opera", tk="0", us="carol"), vop("StaleCBid", "opera", us="david"),
     dict(k="Tick", s="", dt=1), vop("StaleBid", "opera", tk="0", us="carol"), vop("StaleCBid", "opera", us="david")]),
 v1(["B01", "B06"], [vbid("carol", "0", 10, ex=100000), vcb("david", 30, ex=100000), dict(k="Tick", s="", dt=200000), vop("StaleCBid", "opera", us="david"), vop("StaleBid", "opera", tk="0", us="carol")], rw=10000),
 # the largest price of an ask
 v1(["B07"], [vask("alice", "0", 2000000001), vop("UpdPrice", "alice", tk="0", a=2000000002, d="ustars"), vask("alice", "2", 2000000002), vop("UpdPrice", "alice", tk="0", a=2000000000, d="ustars"), vop("UpdPrice", "alice", tk="0", a=2000000001, d="ustars")]),
 # a token that changes hands while it is listed and bid on
 v1(["B03", "B05", "B07", "B08"], [vask("alice", "0", 40), vop("Xfer", "alice", tk="0", to="bobby"), dict(k="Appr", s="bobby", co="colla", tk="0", ex=-1), vop("SyncAsk", "opera", tk="0"), vbid("carol", "0", 40), vbid("carol", "0", 30),
     vop("UpdPrice", "bobby", tk="0", a=50, d="ustars"), vop("RemAsk", "alice", tk="0"), vop("AccBid", "alice", tk="0", us="carol", fi=""), vop("AccBid", "bobby", tk="0", us="carol", fi=""), vbid("david", "0", 20), vop("RejBid", "bobby", tk="0", us="david")]),
 # token 0, and several asks in two collections
 v1(["B10"], [vask("alice", "0", 40), vask("bobby", "1", 40), vask("alice", "2", 50), dict(k="Appr", s="bobby", co="collb", tk="1", ex=-1), vask("bobby", "1", 60, co="collb"), vbid("carol", "0", 20), vbid("david", "0", 20), vbid("bobby", "0", 20)],
    [vq("asks"), vq("asks", lim=1), vq("colls"), vq("colls", lim=1), vq("bids"), vq("bids", lim=1, cur=1, cc="colla", ct="0", cu="carol"), vq("bidsP")]),
]
json.dump(v1s, open(os.path.join(V, "scripts", "v1.json"), "w"), indent=0)
