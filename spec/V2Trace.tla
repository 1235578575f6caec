------------------------------ MODULE V2Trace ------------------------------
(* Trace validation of the V2 marketplace: every recorded operation of the  *)
(* real contract is compared with MarketV2!Step from the same state; every  *)
(* invariant is evaluated in every recorded state.  viol collects the       *)
(* identifiers of the properties a record breaks.                           *)
EXTENDS MarketV2, TraceBase

VARIABLES cur, st, hid, viol

Maps == {"bal", "own", "apr", "opr", "asks", "bids", "cbids", "cden", "reg", "cinfo"}

SetK == {"SetAsk", "SetBid", "SetCBid"}
NowK == {"SellNft", "BuyNft", "BuyColl"}
AccK == {"AccAsk", "AccBid", "AccCBid"}
UpdK == {"UpdAsk", "UpdBid", "UpdCBid"}
RemK == {"RemAsk", "RemBid", "RemCBid"}
AdmK == {"UpdConfig", "UpdDenom", "SetFee", "RemFee", "Inst", "Migrate"}
OrderK == SetK \cup NowK \cup AccK \cup UpdK \cup RemK
EnvK == {"SetAdmin", "Xfer", "Burn", "Mint", "Appr", "Unap", "ApprAll", "UnapAll", "SetInfo", "RegSet", "Tick"}

(* properties that speak about the kind of message *)
KindProps(k) ==
  IF k \in SetK THEN {"A04", "A07"}
  ELSE IF k \in NowK THEN {"A04", "A05"}
  ELSE IF k \in AccK THEN {"A05"}
  ELSE IF k \in UpdK THEN {"A04", "A10"}
  ELSE IF k \in RemK THEN {"A10"}
  ELSE IF k \in AdmK THEN {"A08"}
  ELSE {"ENV"}
IsSale(evs) == evs # <<>> /\ evs[1].ty = "finalize-sale"

EvSame(e, g) ==
  /\ e.ty = g.ty
  /\ DOMAIN e.a = DOMAIN g.a
  /\ \A k \in DOMAIN e.a :
       \/ e.a[k] = g.a[k]
       \* the id of an ask that never rested may be known from an earlier listing of the token
       \/ k = "ask" /\ e.a[k] = "new" /\ g.a[k] = Key(e.a["collection"], e.a["token_id"])
EvsSame(es, gs) == Len(es) = Len(gs) /\ \A i \in 1..Len(es) : EvSame(es[i], gs[i])

Refused(r, o) ==
  \* the code refused what the specification accepts
  KindProps(r.op.k) \cup (IF IsSale(o.ev) THEN {"A03"} ELSE {})
  \cup (IF r.op.k = "RemAsk" THEN {"A02"} ELSE {})

StateDiff(r, o, post) ==
  LET k == r.op.k
      sale == IsSale(o.ev) \/ IsSale(r.ev)
      dBal == DiffKeys(o.st.bal, post.bal)
      dAsk == DiffKeys(o.st.asks, post.asks)
      dBid == DiffKeys(o.st.bids, post.bids)
      dCb  == DiffKeys(o.st.cbids, post.cbids)
      \* the order the message itself sets or updates, present in both
      mine == {x \in dAsk : k \in {"SetAsk", "UpdAsk"} /\ Has(o.st.asks, x) /\ Has(post.asks, x)}
              \cup {x \in dBid : k \in {"SetBid", "UpdBid"} /\ Has(o.st.bids, x) /\ Has(post.bids, x)}
              \cup {x \in dCb : k \in {"SetCBid", "UpdCBid"} /\ Has(o.st.cbids, x) /\ Has(post.cbids, x)}
      other == (dAsk \cup dBid \cup dCb) \ mine
      tradeK == IF k \in SetK \cup UpdK THEN {"A04"} ELSE IF k \in NowK THEN {"A04", "A05"}
                ELSE IF k \in AccK THEN {"A05"} ELSE {}
  IN (IF dBal = {} THEN {}
      ELSE {"A01"} \cup (IF sale THEN {"A03"} \cup tradeK ELSE {})
           \cup (IF k \in UpdK \cup RemK THEN {"A10"} ELSE {})
           \cup (IF k \in {"SetAsk", "SellNft"} THEN {"A07"} ELSE {})
           \cup (IF k \in AdmK THEN {"A08"} ELSE {}))
     \cup (IF DiffKeys(o.st.own, post.own) = {} THEN {}
           ELSE {"A02"} \cup tradeK \cup (IF k = "RemAsk" THEN {"A10"} ELSE {}))
     \cup (IF mine = {} THEN {} ELSE IF k \in UpdK THEN {"A10"} ELSE {"A07"})
     \cup (IF other = {} THEN {} ELSE KindProps(k) \cup tradeK
           \cup (IF dAsk # {} THEN {"A02"} ELSE {}))
     \cup (IF o.st.cfg = post.cfg /\ DiffKeys(o.st.cden, post.cden) = {} THEN {} ELSE {"A08"})
     \cup (IF DiffKeys(o.st.reg, post.reg) = {} THEN {} ELSE {"A03"})
     \cup (IF k = "Inst" /\ r.out # r.op.cfg THEN {"A08"} ELSE {})
     \cup (IF \/ o.st.t # post.t \/ o.st.adm # post.adm \/ DiffKeys(o.st.cinfo, post.cinfo) # {}
              \/ DiffKeys(o.st.opr, post.opr) # {} \/ (DiffKeys(o.st.apr, post.apr) # {} /\ ~sale)
           THEN {"ENV"} ELSE {})
     \cup (IF EvsSame(o.ev, r.ev) THEN {} ELSE {"A11"})

InvViol(pre, post, hd) ==
  (IF EscrowExact(post) THEN {} ELSE {"A01"})
  \cup (IF Conserved(pre, post) THEN {} ELSE {"A01"})
  \cup (IF Custody(post, hd) THEN {} ELSE {"A02"})
  \cup (IF Uncrossed(post) THEN {} ELSE {"A04"})
  \cup (IF ConfigValid(post) THEN {} ELSE {"A08"})
  \cup (IF PricesPositive(post) THEN {} ELSE {"A07"})

(* A refused message changes nothing. *)
Unchanged(pre, post, r) ==
  IF r.d = EmptyMap /\ r.x = EmptyMap THEN {}
  ELSE (IF DiffKeys(pre.bal, post.bal) = {} THEN {} ELSE {"A01"})
       \cup (IF DiffKeys(pre.own, post.own) = {} THEN {} ELSE {"A02"})
       \cup KindProps(r.op.k)

-----------------------------------------------------------------------------
(* Queries.  rank gives the order of the real ids ("" before everything,    *)
(* unknown id before all known ones).                                       *)
Rank(r, l) == IF l = "" THEN -2 ELSE IF l \in DOMAIN r.rank THEN r.rank[l] ELSE -1
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Leq(p, q) == p = q \/ Less(p, q)
Book(s, q) == CASE q \in {"asks", "asksPrice", "asksCr"} -> s.asks
                [] q \in {"bids", "bidsPrice", "bidsCr"} -> s.bids
                [] OTHER -> s.cbids
QueryOk(s, r, q) ==
  LET b == Book(s, q.q)
      byId == q.q \in {"asks", "bids", "cbids"}
      byCr == q.q \in {"asksCr", "bidsCr", "cbidsCr"}
      pos(l) == IF byCr THEN <<0, Rank(r, l)>> ELSE <<b[l].a, Rank(r, l)>>
      bnd(a, i) == IF byCr THEN <<0, Rank(r, i)>> ELSE <<a, Rank(r, i)>>
      F == {l \in DOMAIN b :
              /\ b[l].co = q.co
              /\ IF byCr THEN b[l].cr = q.cr ELSE b[l].d = q.d
              /\ q.q = "bidsPrice" => b[l].tk = q.tk
              /\ q.mk = "inc" => Leq(bnd(q.ma, q.mi), pos(l))
              /\ q.mk = "exc" => Less(bnd(q.ma, q.mi), pos(l))
              /\ q.xk = "inc" => Leq(pos(l), bnd(q.xa, q.xi))
              /\ q.xk = "exc" => Less(pos(l), bnd(q.xa, q.xi))}
      lim == IF q.lim = -1 THEN 10 ELSE IF q.lim > 100 THEN 100 ELSE IF q.lim = -2 THEN 1000000 ELSE q.lim
      R == ToSet(q.res)
      Before(x, y) == IF q.desc = 1 THEN Less(pos(y), pos(x)) ELSE Less(pos(x), pos(y))
  IN IF byId THEN q.res = SelectSeq(q.ids, LAMBDA l : l \in DOMAIN b)
     ELSE /\ R \subseteq F
          /\ Len(q.res) = Min(lim, Cardinality(F))
          /\ \A i \in 1..(Len(q.res) - 1) : Before(q.res[i], q.res[i+1])
          /\ q.res # <<>> => \A l \in F \ R : Before(q.res[Len(q.res)], l)
QueryViol(s, r) == IF "q" \notin DOMAIN r THEN {}
                   ELSE IF \A i \in 1..Len(r.q) : QueryOk(s, r, r.q[i]) THEN {} ELSE {"A09"}

-----------------------------------------------------------------------------
(* Violations are printed and collected by the driver, so that one run      *)
(* reports every violating record of the log.                               *)
Why(o, post) == IF ~o.ok THEN [refused |-> o.why]
                ELSE [c \in {c \in DOMAIN post : o.st[c] # post[c]} |->
                        IF c \in Maps THEN [k \in DiffKeys(o.st[c], post[c]) |->
                            [spec |-> Get(o.st[c], k, "-"), code |-> Get(post[c], k, "-")]]
                        ELSE [spec |-> o.st[c], code |-> post[c]]]
Report(i, v, o, post) ==
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([rec |-> i, props |-> v, diff |-> Why(o, post), ev |-> IF o.ok THEN o.ev ELSE <<>>]))

RootHid == [lfee |-> EmptyMap, stray |-> {}, bad |-> {}]
Init == \E i \in Roots :
  /\ cur = i
  /\ st = Recs[i].d
  /\ hid = RootHid
  /\ viol = (IF Recs[i].out.ok /\ Recs[i].out.cfg = Recs[i].d.cfg THEN {} ELSE {"A08"})
            \cup (IF Recs[i].out.ok THEN InvViol(Recs[i].d, Recs[i].d, RootHid) ELSE {})
  /\ IF viol = {} THEN TRUE ELSE PrintT("VIOL " \o ToJson([rec |-> i, props |-> viol]))

(* What should have happened.  Among equally good counter-orders the code may *)
(* take any: the log says which (hit), except when the message was refused.   *)
Outcome(pre, hd, r) ==
  LET o == Step(pre, hd, r.op)
      tie == {h \in DOMAIN pre.asks \cup DOMAIN pre.bids \cup DOMAIN pre.cbids :
                ~Step(pre, hd, [r.op EXCEPT !.hit = h]).ok}
  IN IF r.ok \/ ~o.ok \/ "hit" \notin DOMAIN r.op \/ ~IsSale(o.ev) \/ tie = {} THEN o
     ELSE Step(pre, hd, [r.op EXCEPT !.hit = CHOOSE h \in tie : TRUE])

Next == \E j \in 1..Len(Recs[cur].kids) :
  LET i == Recs[cur].kids[j]
      r == Recs[i]
      post == Applied(st, r, Maps)
      o == Outcome(st, hid, r)
      \* an invariant is reported where it first breaks, not again in every later state
      inv == InvViol(st, post, IF o.ok THEN o.hid ELSE hid)
      hid2 == [(IF o.ok THEN o.hid ELSE hid) EXCEPT !.bad = inv]
  IN /\ cur' = i
     /\ st' = post
     /\ hid' = hid2
     /\ viol' = (IF r.ok /\ o.ok THEN StateDiff(r, o, post)
                 ELSE IF r.ok THEN {w \in o.why : w # "K:A07:fees-exceed-price"}
                 ELSE (IF o.ok THEN Refused(r, o) ELSE {}) \cup Unchanged(st, post, r)
                      \cup (IF r.ev = <<>> THEN {} ELSE {"A11"})
                      \* a valid, funded order refused because of what it would trade with
                      \cup (IF r.op.k \in SetK \cup UpdK THEN {w \in o.why : w = "K:A07:fees-exceed-price"} ELSE {}))
                \cup (inv \ hid.bad)
                \cup QueryViol(post, r)
     /\ Report(i, viol', o, post)

TraceView == cur
=============================================================================
