------------------------------ MODULE V1Trace ------------------------------
(* Trace validation of the V1 marketplace: every recorded operation of the  *)
(* real contract is compared with MarketV1!Step from the same state; every  *)
(* invariant is evaluated in every recorded state.                          *)
EXTENDS MarketV1, TraceBase

VARIABLES cur, st, bad, viol

Maps == {"bal", "own", "apr", "opr", "asks", "bids", "cbids", "ops", "hk", "hbad", "cinfo"}
BuyK == {"SetBid", "BuyNow", "BuyFor"}
GovK == {"UpdParams", "AddOp", "RemOp", "AddHook", "RemHook", "Inst", "Migrate"}
KindProps(k) ==
  IF k \in {"SetAsk", "RemAsk", "UpdPrice"} THEN {"B07"}
  ELSE IF k = "SetBid" THEN {"B03", "B04"}
  ELSE IF k \in {"BuyNow", "BuyFor"} THEN {"B03"}
  ELSE IF k \in {"RemBid", "RejBid", "SetCBid", "RemCBid"} THEN {"B04"}
  ELSE IF k \in {"AccBid", "AccCBid"} THEN {"B05"}
  ELSE IF k \in {"StaleBid", "StaleCBid"} THEN {"B06"}
  ELSE IF k \in {"SyncAsk", "StaleAsk"} THEN {"B08"}
  ELSE IF k \in GovK THEN {"B11"}
  ELSE {"ENV"}
EnvKind(k) == KindProps(k) = {"ENV"}
IsSale(evs) == \E i \in 1..Len(evs) : evs[i].ty = "finalize-sale"

(* events are compared as bags; a royalty payout of nothing may or may not be reported *)
Told(evs) == SelectSeq(evs, LAMBDA e : ~(e.ty = "royalty-payout" /\ "amount" \in DOMAIN e.a /\ e.a["amount"] = "0ustars"))
EvSame(e, g) == e.ty = g.ty /\ DOMAIN e.a = DOMAIN g.a /\ \A k \in DOMAIN e.a : e.a[k] = g.a[k]
Count(e, s) == Cardinality({i \in 1..Len(s) : EvSame(e, s[i])})
EvsSame(es, gs0) == LET gs == Told(gs0) IN
  Len(es) = Len(gs) /\ \A i \in 1..Len(es) : Count(es[i], es) = Count(es[i], gs)

HooksSame(hk, calls) == Len(calls) = Cardinality(hk) /\ {calls[i] : i \in 1..Len(calls)} = hk

Refused(r, o) == KindProps(r.op.k) \cup (IF IsSale(o.ev) THEN {"B02"} ELSE {})
                 \cup (IF r.op.k \in {"RemBid", "RejBid", "RemCBid", "SetCBid"} THEN {"B01"} ELSE {})
                 \* the same message without failing hooks would have passed
                 \cup (IF o.hk # {} /\ DOMAIN o.st.hbad # {} THEN {"B09"} ELSE {})

StateDiff(r, o, post) ==
  LET k == r.op.k
      kp == KindProps(k)
      sale == IsSale(o.ev) \/ IsSale(r.ev)
      df(c) == DiffKeys(o.st[c], post[c])
  IN (IF df("bal") = {} THEN {} ELSE {"B01"} \cup kp \cup (IF sale THEN {"B02"} ELSE {}))
     \cup (IF df("own") = {} THEN {} ELSE kp)
     \cup (IF df("asks") = {} THEN {} ELSE kp \cup (IF \E x \in df("asks") : Has(post.asks, x) THEN {"B07"} ELSE {}))
     \cup (IF df("bids") \cup df("cbids") = {} THEN {} ELSE kp \cup {"B04"})
     \cup (IF o.st.pr = post.pr /\ df("ops") = {} /\ df("hk") = {} THEN {} ELSE {"B11"} \cup kp)
     \cup (IF k = "Inst" /\ ~(r.out.pr = InstPr(r.op.cfg) /\ Same(r.out.ops, InstOps(r.op.cfg)) /\ Same(r.out.hk, InstHk(r.op.cfg))) THEN {"B11"} ELSE {})
     \cup (IF k = "Migrate" /\ ~(r.out.kept /\ r.out.cur) THEN {"B11"} ELSE {})
     \cup (IF o.st.t # post.t \/ df("cinfo") # {} \/ df("opr") # {} \/ df("hbad") # {} \/ (df("apr") # {} /\ ~sale) THEN {"ENV"} ELSE {})
     \cup (IF HooksSame(o.hk, r.out.hooks) THEN {} ELSE {"B09"})
     \cup (IF EvsSame(o.ev, r.ev) THEN {} ELSE {"B12"})

InvViol(pre, post) ==
  (IF EscrowExact(post) /\ Conserved(pre, post) THEN {} ELSE {"B01"})
  \cup (IF KeysTrue(post) THEN {} ELSE {"B04", "B07", "B10"})
  \cup (IF PricesOk(post) /\ ReservedFixed(post) THEN {} ELSE {"B07"})
  \cup (IF BidsPositive(post) THEN {} ELSE {"B04"})
  \cup (IF ParamsValid(post) /\ SetsTrue(post) THEN {} ELSE {"B11"})

(* A refused message changes nothing. *)
Unchanged(pre, post, r) ==
  IF r.d = EmptyMap /\ r.x = EmptyMap THEN {}
  ELSE (IF DiffKeys(pre.bal, post.bal) = {} THEN {} ELSE {"B01"}) \cup KindProps(r.op.k)

-----------------------------------------------------------------------------
(* Queries.  rk: position of every key (and of the cursor) in key order. *)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] < q[3])))
ByPrice == {"asksP", "asksPR", "bidsP", "bidsPR", "cbidsP", "cbidsPR"}
ByExp == {"bidsBE", "cbidsBE"}
Reverse == {"asksR", "asksPR", "bidsPR", "cbidsPR"}
AskQ == {"asks", "asksR", "asksP", "asksPR", "askCount", "asksS"}
BidQ == {"bidsB", "bidsBE", "bids", "bidsP", "bidsPR"}
Book(s, q) == IF q.q \in AskQ THEN s.asks ELSE IF q.q \in BidQ THEN s.bids ELSE s.cbids
Wanted(o, q) ==
  CASE q.q \in {"asks", "asksR", "asksP", "asksPR"} -> o.co = q.co /\ (o.ac \/ q.inact = 1)
    [] q.q = "asksS" -> o.se = q.us /\ (o.ac \/ q.inact = 1)
    [] q.q \in {"bidsB", "bidsBE", "cbidsB", "cbidsBE"} -> o.us = q.us
    [] q.q = "bids" -> o.co = q.co /\ o.tk = q.tk
    [] OTHER -> o.co = q.co
QueryOk(s, q) ==
  LET b == Book(s, q)
      colls == q.q = "colls"
      prim(k) == IF q.q \in ByPrice THEN b[k].a ELSE IF q.q \in ByExp THEN b[k].ex \div 1000 ELSE 0
      (* expiries are ordered by the whole second; in stretched runs (q.ts) the chain's seconds are finer than the model's *)
      sub(k) == IF q.q \in ByExp THEN ((b[k].ex % 1000) * q.ts) \div 1000 ELSE 0
      pos(k) == <<prim(k), sub(k), q.rk[k]>>
      curKey == CHOOSE k \in DOMAIN q.rk : q.rk[k] = q.ck
      hasCur == q.ck >= 0 /\ (q.q \in ByExp => Has(b, curKey))
      bnd == <<IF q.q \in ByPrice THEN q.ca ELSE IF q.q \in ByExp THEN prim(curKey) ELSE 0, IF q.q \in ByExp THEN sub(curKey) ELSE 0, q.ck>>
      All == IF colls THEN {s.asks[k].co : k \in DOMAIN s.asks} ELSE {k \in DOMAIN b : Wanted(b[k], q)}
      F == {k \in All : hasCur => IF q.q \in Reverse THEN Less(pos(k), bnd) ELSE Less(bnd, pos(k))}
      lim == IF q.lim = -1 THEN 10 ELSE IF q.lim = -2 THEN 1000000 ELSE Min(q.lim, 100)
      R == ToSet(q.res)
      Before(x, y) == IF q.q \in Reverse THEN Less(pos(y), pos(x)) ELSE Less(pos(x), pos(y))
  IN IF q.q = "askCount" THEN q.res = <<ToString(Cardinality({k \in DOMAIN s.asks : s.asks[k].co = q.co}))>>
     ELSE /\ R \subseteq F
          /\ Len(q.res) = Min(lim, Cardinality(F))
          /\ \A i \in 1..(Len(q.res) - 1) : Before(q.res[i], q.res[i+1])
          /\ q.res # <<>> => \A k \in F \ R : Before(q.res[Len(q.res)], k)
BadQ(s, r) == IF "q" \notin DOMAIN r THEN {} ELSE {i \in 1..Len(r.q) : ~QueryOk(s, r.q[i])}
QueryViol(s, r) == IF BadQ(s, r) = {} THEN {} ELSE {"B10"}

-----------------------------------------------------------------------------
Why(r, o, post) ==
  IF ~o.ok THEN [refused |-> o.why]
  ELSE [c \in {c \in DOMAIN post : o.st[c] # post[c]} |->
          IF c \in Maps THEN [k \in DiffKeys(o.st[c], post[c]) |->
              [spec |-> Get(o.st[c], k, "-"), code |-> Get(post[c], k, "-")]]
          ELSE [spec |-> o.st[c], code |-> post[c]]]
Report(i, v, r, o, post) ==
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([rec |-> i, props |-> v, diff |-> Why(r, o, post), ev |-> IF o.ok THEN o.ev ELSE <<>>,
                                 hooks |-> IF o.ok THEN o.hk ELSE {}, queries |-> BadQ(post, r)]))

RootViol(r) ==
  IF ~r.out.ok THEN {"B11"}
  ELSE (IF r.d.pr = InstPr(r.out.cfg) /\ Same(r.d.ops, InstOps(r.out.cfg)) /\ Same(r.d.hk, InstHk(r.out.cfg)) THEN {} ELSE {"B11"})
       \cup InvViol(r.d, r.d)
Init == \E i \in Roots :
  /\ cur = i
  /\ st = Recs[i].d
  /\ bad = {}
  /\ viol = RootViol(Recs[i])
  /\ IF viol = {} THEN TRUE ELSE PrintT("VIOL " \o ToJson([rec |-> i, props |-> viol]))

Next == \E j \in 1..Len(Recs[cur].kids) :
  LET i == Recs[cur].kids[j]
      r == Recs[i]
      post == Applied(st, r, Maps)
      o == Step(st, r.op)
      \* an invariant is reported where it first breaks, not again in every later state
      inv == InvViol(st, post)
  IN /\ cur' = i
     /\ st' = post
     /\ bad' = inv
     /\ viol' = (IF r.ok /\ o.ok THEN StateDiff(r, o, post)
                 ELSE IF r.ok THEN o.why
                 ELSE (IF o.ok THEN Refused(r, o) ELSE {}) \cup Unchanged(st, post, r)
                      \cup (IF r.ev = <<>> THEN {} ELSE {"B12"}))
                \cup (inv \ bad)
                \cup QueryViol(post, r)
     /\ Report(i, viol', r, o, post)

TraceView == cur
=============================================================================
