------------------------------ MODULE MarketV2 ------------------------------
(* The V2 order-book marketplace: state, transitions and properties.        *)
(*                                                                          *)
(* st is a record:                                                          *)
(*   t      block time (ms)             adm   contract admin ("" = none)    *)
(*   bal    account -> denom -> amount                                      *)
(*   own    token key "coll/id" -> owner ("" = does not exist)              *)
(*   apr    token key -> marketplace approved for the token                 *)
(*   opr    "coll/user" -> marketplace is an operator of user               *)
(*   asks   token key -> order ; bids, cbids  label -> order                *)
(*   cfg    protocol settings ; cden collection -> required denom ("" none) *)
(*   reg    royalty registries: registry/coll -> [dr, ds, pr, ps] default / *)
(*          protocol; the configuration names the registry that counts (rr) *)
(*   cinfo  collection info: coll -> [ok, stt, rr, rs, ft]                  *)
(* order = [cr, co, tk, d, a, rc, fi] creator, collection, token, denom,    *)
(*   amount, recipient, finder ("" = not given)                             *)
(* hid: what cannot be queried: lfee denom -> listing fee, stray tokens     *)
(*   that were sent to the marketplace directly.                            *)
(* Step(st, hid, op) gives the outcome of one transaction `op`: refused     *)
(* (ok = FALSE, why = properties that require the refusal) or accepted with *)
(* the next state and the events.                                           *)
EXTENDS Common

MKT == "mkt"
Key(co, tk) == co \o "/" \o tk

NewOrder(cr, co, tk, op) ==
  [cr |-> cr, co |-> co, tk |-> tk, d |-> op.d, a |-> op.a, rc |-> op.rc, fi |-> op.fi]
Redetail(o, op) == [o EXCEPT !.d = op.d, !.a = op.a, !.rc = op.rc, !.fi = op.fi]
Recip(o) == IF o.rc = "" THEN o.cr ELSE o.rc

DenomOf(st, co) == IF st.cden[co] # "" THEN st.cden[co] ELSE st.cfg.dd
ValidPrice(st, co, d, a) == a > 0 /\ d = DenomOf(st, co)
Tradable(st, co) == LET c == st.cinfo[co] IN ~(c.ok /\ c.stt >= 0 /\ c.stt > st.t)
Movable(st, k, co) == /\ st.own[k] # ""
                      /\ ~st.cinfo[co].ft
                      /\ (st.own[k] = MKT \/ st.apr[k] \/ Get(st.opr, co \o "/" \o st.own[k], FALSE))
MoveNft(st, k, to) == [st EXCEPT !.own[k] = to, !.apr[k] = FALSE]
CanPay(st, op) == \A i \in 1..Len(op.f) : Funds(st.bal, op.s, op.f[i].d) >= op.f[i].a
Nonpayable(op) == op.f = <<>>

ValidCfg(c) == c.pf < 10000 /\ c.mk < 10000 /\ c.tk < 10000 /\ c.mk + c.tk < 10000
ValidCfgAddr(c) == ~BadAddr(c.fm) /\ ~BadAddr(c.rr)

-----------------------------------------------------------------------------
(* Matching *)
BestAsks(st, co, d, a) ==
  LET S == {k \in DOMAIN st.asks : st.asks[k].co = co /\ st.asks[k].d = d /\ st.asks[k].a <= a}
  IN {k \in S : \A j \in S : st.asks[k].a <= st.asks[j].a}
Tops(m, S) == {k \in S : \A j \in S : m[k].a >= m[j].a}
TopBids(st, o) ==
  Tops(st.bids, {k \in DOMAIN st.bids : st.bids[k].co = o.co /\ st.bids[k].tk = o.tk
                                        /\ st.bids[k].d = o.d /\ st.bids[k].a >= o.a})
TopCBids(st, o) ==
  Tops(st.cbids, {k \in DOMAIN st.cbids : st.cbids[k].co = o.co
                                          /\ st.cbids[k].d = o.d /\ st.cbids[k].a >= o.a})
(* the best offers for ask o: [kind, set of labels] *)
BestOffers(st, o) ==
  LET b == TopBids(st, o)
      c == TopCBids(st, o)
      pb == IF b = {} THEN -1 ELSE st.bids[CHOOSE k \in b : TRUE].a
      pc == IF c = {} THEN -1 ELSE st.cbids[CHOOSE k \in c : TRUE].a
  IN IF b = {} /\ c = {} THEN [kind |-> "none", S |-> {}]
     ELSE IF pb >= pc THEN [kind |-> "bid", S |-> b]
     ELSE [kind |-> "cbid", S |-> c]
Pick(S, hint) == IF hint \in S THEN hint ELSE CHOOSE k \in S : TRUE

-----------------------------------------------------------------------------
(* Sales *)
Regs == {"regis", "regib"}
RegKey(rg, co) == rg \o "/" \o co
Royalty(st, co) ==
  LET r == IF st.cfg.rr \in Regs THEN st.reg[RegKey(st.cfg.rr, co)] ELSE [dr |-> "", ds |-> 0, pr |-> "", ps |-> 0]
      c == st.cinfo[co] IN
  IF r.pr # "" THEN [to |-> r.pr, n |-> r.ps, init |-> FALSE]
  ELSE IF r.dr # "" THEN [to |-> r.dr, n |-> r.ds, init |-> FALSE]
  ELSE IF c.ok /\ c.rr # "" THEN [to |-> c.rr, n |-> c.rs, init |-> TRUE]
  ELSE [to |-> "", n |-> 0, init |-> FALSE]

Fees(st, co, price, maker, taker) ==
  LET c == st.cfg
      mk == IF maker # "" THEN c.pf * c.mk ELSE 0        \* shares of 10^8
      tk == IF taker # "" THEN c.pf * c.tk ELSE 0
      roy == Royalty(st, co)
      all == << [l |-> "protocol", to |-> c.fm, n |-> c.pf * 10000 - mk - tk],
                [l |-> "maker", to |-> maker, n |-> mk],
                [l |-> "taker", to |-> taker, n |-> tk],
                [l |-> "royalty", to |-> roy.to, n |-> Min(roy.n, c.mr * 10000)] >>
      due == SelectSeq(all, LAMBDA f : f.n > 0)
  IN [i \in 1..Len(due) |-> [l |-> due[i].l, to |-> due[i].to, a |-> MulCeil(price, due[i].n)]]

(* Sale of the token of `ask` to the maker of `bid`. askFirst: the ask was  *)
(* resting (its price rules, its finder is the maker's).                    *)
Sale(st, ask, bid, askFirst) ==
  LET k == Key(ask.co, ask.tk)
      price == IF askFirst THEN ask.a ELSE bid.a
      d == IF askFirst THEN ask.d ELSE bid.d
      maker == IF askFirst THEN ask.fi ELSE bid.fi
      taker == IF askFirst THEN bid.fi ELSE ask.fi
      fees == Fees(st, ask.co, price, maker, taker)
      rest == price - SumPays(fees)
      pays == fees \o (IF rest > 0 THEN <<[l |-> "seller", to |-> Recip(ask), a |-> rest]>> ELSE <<>>)
      roy == Royalty(st, ask.co)
      st1 == [MoveNft(st, k, Recip(bid)) EXCEPT !.bal = PayAll(@, MKT, d, pays),
                !.reg = IF st.cfg.rr \notin Regs THEN @ ELSE [@ EXCEPT ![RegKey(st.cfg.rr, ask.co)] = IF roy.init THEN [@ EXCEPT !.dr = roy.to, !.ds = roy.n] ELSE @]]
  IN [ok |-> rest >= 0 /\ st.cfg.rr \in Regs /\ ~BadAddr(roy.to) /\ Movable(st, k, ask.co),
      why |-> IF rest < 0 THEN {"A03", "K:A07:fees-exceed-price"}
              ELSE IF BadAddr(roy.to) \/ st.cfg.rr \notin Regs THEN {"A03"} ELSE {"A02"},
      st |-> st1, price |-> price, d |-> d, pays |-> pays]

RECURSIVE PayAttrs(_)
PayAttrs(pays) == IF pays = <<>> THEN EmptyMap
                  ELSE (Head(pays).l :> ToString(Head(pays).a)) @@ PayAttrs(Tail(pays))
SaleEv(s, ask, askid, bid, bidid, iscb) ==
  [ty |-> "finalize-sale",
   a |-> ("collection" :> ask.co) @@ ("token_id" :> ask.tk) @@ ("denom" :> s.d)
         @@ ("price" :> ToString(s.price)) @@ ("seller_recipient" :> Recip(ask))
         @@ ("nft_recipient" :> Recip(bid)) @@ ("ask" :> askid)
         @@ ((IF iscb THEN "collection_bid" ELSE "bid") :> bidid) @@ PayAttrs(s.pays)]
OrderEv(ty, id, o, full) ==
  [ty |-> ty,
   a |-> ("id" :> id) @@ ("collection" :> o.co) @@ Opt("token_id", o.tk)
         @@ (IF full = "none" THEN EmptyMap
             ELSE ("price" :> (ToString(o.a) \o o.d)) @@ Opt("recipient", o.rc) @@ Opt("finder", o.fi)
                  @@ (IF full = "creator" THEN ("creator" :> o.cr) ELSE EmptyMap))]

-----------------------------------------------------------------------------
(* Seller side: a new or repriced ask o.  st is the state without o's       *)
(* resting version; rid is "" or the key it rests under.                    *)
SellMatched(st, hid, o, rid, hint, off) ==
  LET k == Pick(off.S, hint)
      bid == IF off.kind = "bid" THEN st.bids[k] ELSE st.cbids[k]
      s == Sale(st, o, bid, FALSE)
      key == Key(o.co, o.tk)
      st2 == [s.st EXCEPT !.asks = Del(@, key),
                          !.bids = IF off.kind = "bid" THEN Del(@, k) ELSE @,
                          !.cbids = IF off.kind = "cbid" THEN Del(@, k) ELSE @]
  IN IF ~s.ok THEN Fail(s.why)
     ELSE Good(st2, hid, <<SaleEv(s, o, rid, bid, k, off.kind = "cbid")>>)

SetAsk(st, hid, op, now) ==
  LET k == Key(op.co, op.tk)
      o == NewOrder(op.s, op.co, op.tk, op)
      off == BestOffers(st, o)
      st1 == [st EXCEPT !.bal = Move(@, op.s, st.cfg.fm, op.f[1].d, op.f[1].a)]
      st2 == [MoveNft(st1, k, MKT) EXCEPT !.asks = Put(@, k, o)]
  IN IF BadAddr(op.rc) \/ BadAddr(op.fi) THEN Fail({"A07"})
     ELSE IF ~CanPay(st, op) THEN Fail({"A01"})
     ELSE IF st.own[k] # "" /\ st.own[k] # op.s THEN Fail({"A06"})
     ELSE IF ~Tradable(st, op.co) THEN Fail({"A07"})
     ELSE IF ~ValidPrice(st, op.co, op.d, op.a) THEN Fail({"A07"})
     ELSE IF Len(op.f) # 1 \/ ~Has(hid.lfee, op.f[1].d) THEN Fail({"A07"})
     ELSE IF hid.lfee[op.f[1].d] # op.f[1].a THEN Fail({"A07"})
     ELSE IF off.kind # "none" THEN SellMatched(st1, hid, o, "new", op.hit, off)
     ELSE IF now THEN Fail({"A05", "A04"})
     ELSE IF ~Movable(st, k, op.co) THEN Fail({"A02"})
     ELSE Good(st2, hid, <<OrderEv("set-ask", k, o, "creator")>>)

UpdAsk(st, hid, op) ==
  LET o == Redetail(st.asks[op.id], op)
      off == BestOffers(st, o)
  IN IF BadAddr(op.rc) \/ BadAddr(op.fi) THEN Fail({"A07"})
     ELSE IF ~Nonpayable(op) THEN Fail({"A01"})
     ELSE IF ~Has(st.asks, op.id) THEN Fail({"A06"})
     ELSE IF st.asks[op.id].cr # op.s THEN Fail({"A06"})
     ELSE IF ~ValidPrice(st, o.co, op.d, op.a) THEN Fail({"A07"})
     ELSE IF off.kind # "none" THEN SellMatched(st, hid, o, op.id, op.hit, off)
     ELSE Good([st EXCEPT !.asks[op.id] = o], hid, <<OrderEv("update-ask", op.id, o, "details")>>)

RemAsk(st, hid, op) ==
  LET o == st.asks[op.id] IN
  IF ~Nonpayable(op) THEN Fail({"A01"})
  ELSE IF ~Has(st.asks, op.id) THEN Fail({"A06"})
  ELSE IF o.cr # op.s THEN Fail({"A06"})
  ELSE IF st.cinfo[o.co].ft THEN Fail({"A02"})
  ELSE Good([MoveNft(st, op.id, Recip(o)) EXCEPT !.asks = Del(@, op.id)], hid,
            <<OrderEv("remove-ask", op.id, o, "none")>>)

(* Buyer side. kept: what the buyer's funds must cover *)
BuyResting(st, hid, op, ask, bid, bidid, iscb, credit) ==
  (* the buyer of record is bid.cr = op.s; credit = escrow released to him first *)
  LET st1 == [st EXCEPT !.bal = Move(Move(@, MKT, op.s, credit.d, credit.a), op.s, MKT, ask.d, ask.a)]
      s == Sale(st1, ask, bid, TRUE)
      key == Key(ask.co, ask.tk)
      have == FundOf(op.f, ask.d) + (IF credit.d = ask.d THEN credit.a ELSE 0)
  IN IF have < ask.a THEN Fail({"A01"})
     ELSE IF ~s.ok THEN Fail(s.why)
     ELSE Good([s.st EXCEPT !.asks = Del(@, key), !.bids = Del(@, bidid), !.cbids = Del(@, bidid)],
               hid, <<SaleEv(s, ask, key, bid, bidid, iscb)>>)
NoCredit == [d |-> "ustars", a |-> 0]

AccAsk(st, hid, op) ==
  LET ask == st.asks[op.id] IN
  IF BadAddr(op.rc) \/ BadAddr(op.fi) THEN Fail({"A07"})
  ELSE IF ~CanPay(st, op) THEN Fail({"A01"})
  ELSE IF ~Has(st.asks, op.id) THEN Fail({"A06"})
  ELSE IF op.d # ask.d \/ op.a < ask.a THEN Fail({"A05"})
  ELSE BuyResting(st, hid, op, ask, NewOrder(op.s, ask.co, ask.tk, op), "new", FALSE, NoCredit)

SetBid(st, hid, op, now) ==
  LET k == Key(op.co, op.tk)
      o == NewOrder(op.s, op.co, op.tk, op)
      cross == Has(st.asks, k) /\ st.asks[k].d = op.d /\ st.asks[k].a <= op.a
  IN IF BadAddr(op.rc) \/ BadAddr(op.fi) THEN Fail({"A07"})
     ELSE IF ~CanPay(st, op) THEN Fail({"A01"})
     ELSE IF ~Tradable(st, op.co) THEN Fail({"A07"})
     ELSE IF ~ValidPrice(st, op.co, op.d, op.a) THEN Fail({"A07"})
     ELSE IF cross THEN BuyResting(st, hid, op, st.asks[k], o, "new", FALSE, NoCredit)
     ELSE IF now THEN Fail({"A05", "A04"})
     ELSE IF FundOf(op.f, op.d) < op.a THEN Fail({"A01"})
     ELSE Good([st EXCEPT !.bids = Put(@, op.nid, o), !.bal = Move(@, op.s, MKT, op.d, op.a)], hid,
               <<OrderEv("set-bid", op.nid, o, "creator")>>)

SetCBid(st, hid, op, now) ==
  LET o == NewOrder(op.s, op.co, "", op)
      best == BestAsks(st, op.co, op.d, op.a)
  IN IF BadAddr(op.rc) \/ BadAddr(op.fi) THEN Fail({"A07"})
     ELSE IF ~CanPay(st, op) THEN Fail({"A01"})
     ELSE IF ~Tradable(st, op.co) THEN Fail({"A07"})
     ELSE IF ~ValidPrice(st, op.co, op.d, op.a) THEN Fail({"A07"})
     ELSE IF best # {} THEN
       BuyResting(st, hid, op, st.asks[Pick(best, op.hit)], o, "new", TRUE, NoCredit)
     ELSE IF now THEN Fail({"A05", "A04"})
     ELSE IF FundOf(op.f, op.d) < op.a THEN Fail({"A01"})
     ELSE Good([st EXCEPT !.cbids = Put(@, op.nid, o), !.bal = Move(@, op.s, MKT, op.d, op.a)], hid,
               <<OrderEv("set-collection-bid", op.nid, o, "creator")>>)

UpdBid(st, hid, op, iscb) ==
  LET book == IF iscb THEN st.cbids ELSE st.bids
      old == book[op.id]
      o == Redetail(old, op)
      k == Key(o.co, o.tk)
      cross == IF iscb THEN BestAsks(st, o.co, o.d, o.a)
               ELSE IF Has(st.asks, k) /\ st.asks[k].d = o.d /\ st.asks[k].a <= o.a THEN {k} ELSE {}
      credit == [d |-> old.d, a |-> old.a]
      have == FundOf(op.f, op.d) + (IF old.d = op.d THEN old.a ELSE 0)
      bal2 == Move(Move(st.bal, MKT, op.s, old.d, old.a), op.s, MKT, op.d, op.a)
  IN IF BadAddr(op.rc) \/ BadAddr(op.fi) THEN Fail({"A07"})
     ELSE IF ~CanPay(st, op) THEN Fail({"A01"})
     ELSE IF ~Has(book, op.id) THEN Fail({"A06"})
     ELSE IF old.cr # op.s THEN Fail({"A06"})
     ELSE IF ~ValidPrice(st, o.co, op.d, op.a) THEN Fail({"A07"})
     ELSE IF cross # {} THEN BuyResting(st, hid, op, st.asks[Pick(cross, op.hit)], o, op.id, iscb, credit)
     ELSE IF have < op.a THEN Fail({"A01", "A10"})
     ELSE Good(IF iscb THEN [st EXCEPT !.cbids[op.id] = o, !.bal = bal2]
               ELSE [st EXCEPT !.bids[op.id] = o, !.bal = bal2], hid,
               <<OrderEv(IF iscb THEN "update-collection-bid" ELSE "update-bid", op.id, o, "creator")>>)

RemBid(st, hid, op, iscb) ==
  LET book == IF iscb THEN st.cbids ELSE st.bids
      o == book[op.id]
      st1 == [st EXCEPT !.bal = Move(@, MKT, op.s, o.d, o.a)]
  IN IF ~Nonpayable(op) THEN Fail({"A01"})
     ELSE IF ~Has(book, op.id) THEN Fail({"A06"})
     ELSE IF o.cr # op.s THEN Fail({"A06"})
     ELSE Good(IF iscb THEN [st1 EXCEPT !.cbids = Del(@, op.id)] ELSE [st1 EXCEPT !.bids = Del(@, op.id)],
               hid, <<OrderEv(IF iscb THEN "remove-collection-bid" ELSE "remove-bid", op.id, o, "none")>>)

AccBid(st, hid, op, iscb) ==
  LET book == IF iscb THEN st.cbids ELSE st.bids
      bid == book[op.id]
      tk == IF iscb THEN op.tk ELSE bid.tk
      k == Key(bid.co, tk)
      listed == Has(st.asks, k)
      ask == IF listed THEN st.asks[k] ELSE NewOrder(op.s, bid.co, tk, op)
      s == Sale(st, ask, bid, FALSE)
      st2 == [s.st EXCEPT !.asks = Del(@, k)]
  IN IF BadAddr(op.rc) \/ BadAddr(op.fi) THEN Fail({"A07"})
     ELSE IF ~Nonpayable(op) THEN Fail({"A01"})
     ELSE IF ~Has(book, op.id) THEN Fail({"A06"})
     ELSE IF op.a > 0 /\ (op.d # bid.d \/ op.a > bid.a) THEN Fail({"A05"})
     ELSE IF op.a = 0 /\ op.d # bid.d THEN Fail({"A05"})
     ELSE IF listed /\ ask.cr # op.s THEN Fail({"A06"})
     ELSE IF ~listed /\ st.own[k] # "" /\ st.own[k] # op.s THEN Fail({"A06"})
     ELSE IF ~s.ok THEN Fail(s.why)
     ELSE Good(IF iscb THEN [st2 EXCEPT !.cbids = Del(@, op.id)] ELSE [st2 EXCEPT !.bids = Del(@, op.id)],
               hid, <<SaleEv(s, ask, IF listed THEN k ELSE "new", bid, op.id, iscb)>>)

-----------------------------------------------------------------------------
(* Settings *)
CfgEv(c) == [ty |-> "set-config",
  a |-> ("fee_manager" :> c.fm) @@ ("royalty_registry" :> c.rr) @@ ("protocol_fee_bps" :> ToString(c.pf))
        @@ ("max_royalty_fee_bps" :> ToString(c.mr)) @@ ("maker_reward_bps" :> ToString(c.mk))
        @@ ("taker_reward_bps" :> ToString(c.tk)) @@ ("default_denom" :> c.dd)]
AdminOk(st, op) == st.adm # "" /\ op.s = st.adm
UpdConfig(st, hid, op) ==
  IF ~ValidCfgAddr(op.cfg) THEN Fail({"A08"})
  ELSE IF ~Nonpayable(op) THEN Fail({"A01"})
  ELSE IF ~AdminOk(st, op) THEN Fail({"A06"})
  ELSE IF ~ValidCfg(op.cfg) THEN Fail({"A08"})
  ELSE Good([st EXCEPT !.cfg = op.cfg], hid, <<CfgEv(op.cfg)>>)
UpdDenom(st, hid, op) ==
  IF ~Nonpayable(op) THEN Fail({"A01"})
  ELSE IF ~AdminOk(st, op) THEN Fail({"A06"})
  ELSE Good([st EXCEPT !.cden[op.co] = op.d], hid,
            <<[ty |-> "set-collection-denom", a |-> ("collection" :> op.co) @@ ("denom" :> op.d)]>>)
SetFee(st, hid, op) ==
  IF ~Nonpayable(op) THEN Fail({"A01"})
  ELSE IF ~AdminOk(st, op) THEN Fail({"A06"})
  ELSE Good(st, [hid EXCEPT !.lfee = Put(@, op.d, op.a)],
            <<[ty |-> "set-listing-fee", a |-> ("denom" :> op.d) @@ ("fee" :> ToString(op.a))]>>)
RemFee(st, hid, op) ==
  IF ~Nonpayable(op) THEN Fail({"A01"})
  ELSE IF ~AdminOk(st, op) THEN Fail({"A06"})
  ELSE Good(st, [hid EXCEPT !.lfee = Del(@, op.d)],
            <<[ty |-> "remove-listing-fee", a |-> ("denom" :> op.d)]>>)

(* instantiation of another instance: accepted iff valid, stored as given *)
Inst(st, hid, op) == IF ValidCfg(op.cfg) /\ ValidCfgAddr(op.cfg) THEN Good(st, hid, <<>>) ELSE Fail({"A08"})
Migrate(st, hid, op) == IF AdminOk(st, op) THEN Good(st, hid, <<>>) ELSE Fail({"ENV"})
SetAdmin(st, hid, op) == IF AdminOk(st, op) THEN Good([st EXCEPT !.adm = op.to], hid, <<>>) ELSE Fail({"ENV"})

-----------------------------------------------------------------------------
(* Environment *)
Xfer(st, hid, op) ==
  LET k == Key(op.co, op.tk) IN
  IF st.own[k] # op.s \/ st.cinfo[op.co].ft THEN Fail({"ENV"})
  ELSE Good(MoveNft(st, k, op.to), IF op.to = MKT THEN [hid EXCEPT !.stray = @ \cup {k}] ELSE hid, <<>>)
Burn(st, hid, op) ==
  LET k == Key(op.co, op.tk) IN
  IF st.own[k] # op.s THEN Fail({"ENV"}) ELSE Good(MoveNft(st, k, ""), hid, <<>>)
Mint(st, hid, op) ==
  LET k == Key(op.co, op.tk) IN
  IF Get(st.own, k, "") # "" THEN Fail({"ENV"}) ELSE Good([st EXCEPT !.own = Put(@, k, op.to), !.apr = Put(@, k, FALSE)], hid, <<>>)
Appr(st, hid, op, v) ==
  LET k == Key(op.co, op.tk) IN
  IF st.own[k] # op.s THEN Fail({"ENV"}) ELSE Good([st EXCEPT !.apr[k] = v], hid, <<>>)
ApprAll(st, hid, op, v) == Good([st EXCEPT !.opr[op.co \o "/" \o op.s] = v], hid, <<>>)
SetInfo(st, hid, op) == Good([st EXCEPT !.cinfo[op.co] = op.info], hid, <<>>)
RegSet(st, hid, op) ==
  LET e == [r |-> op.r, s |-> IF op.r = "" THEN 0 ELSE op.sh] IN
  Good([st EXCEPT !.reg[RegKey(IF "rg" \in DOMAIN op THEN op.rg ELSE "regis", op.co)] = IF op.p = "" THEN [@ EXCEPT !.dr = e.r, !.ds = e.s]
                                 ELSE [@ EXCEPT !.pr = e.r, !.ps = e.s]], hid, <<>>)
Tick(st, hid, op) == Good([st EXCEPT !.t = @ + op.dt], hid, <<>>)

Step(st, hid, op) ==
  CASE op.k = "SetAsk"   -> SetAsk(st, hid, op, FALSE)
    [] op.k = "SellNft"  -> SetAsk(st, hid, op, TRUE)
    [] op.k = "UpdAsk"   -> UpdAsk(st, hid, op)
    [] op.k = "RemAsk"   -> RemAsk(st, hid, op)
    [] op.k = "AccAsk"   -> AccAsk(st, hid, op)
    [] op.k = "SetBid"   -> SetBid(st, hid, op, FALSE)
    [] op.k = "BuyNft"   -> SetBid(st, hid, op, TRUE)
    [] op.k = "UpdBid"   -> UpdBid(st, hid, op, FALSE)
    [] op.k = "RemBid"   -> RemBid(st, hid, op, FALSE)
    [] op.k = "AccBid"   -> AccBid(st, hid, op, FALSE)
    [] op.k = "SetCBid"  -> SetCBid(st, hid, op, FALSE)
    [] op.k = "BuyColl"  -> SetCBid(st, hid, op, TRUE)
    [] op.k = "UpdCBid"  -> UpdBid(st, hid, op, TRUE)
    [] op.k = "RemCBid"  -> RemBid(st, hid, op, TRUE)
    [] op.k = "AccCBid"  -> AccBid(st, hid, op, TRUE)
    [] op.k = "UpdConfig" -> UpdConfig(st, hid, op)
    [] op.k = "UpdDenom" -> UpdDenom(st, hid, op)
    [] op.k = "SetFee"   -> SetFee(st, hid, op)
    [] op.k = "RemFee"   -> RemFee(st, hid, op)
    [] op.k = "Inst"     -> Inst(st, hid, op)
    [] op.k = "Migrate"  -> Migrate(st, hid, op)
    [] op.k = "SetAdmin" -> SetAdmin(st, hid, op)
    [] op.k = "Xfer"     -> Xfer(st, hid, op)
    [] op.k = "Burn"     -> Burn(st, hid, op)
    [] op.k = "Mint"     -> Mint(st, hid, op)
    [] op.k = "Appr"     -> Appr(st, hid, op, TRUE)
    [] op.k = "Unap"     -> Appr(st, hid, op, FALSE)
    [] op.k = "ApprAll"  -> ApprAll(st, hid, op, TRUE)
    [] op.k = "UnapAll"  -> ApprAll(st, hid, op, FALSE)
    [] op.k = "SetInfo"  -> SetInfo(st, hid, op)
    [] op.k = "RegSet"   -> RegSet(st, hid, op)
    [] op.k = "Tick"     -> Tick(st, hid, op)

-----------------------------------------------------------------------------
(* Invariants *)
InDenom(m, d) == {k \in DOMAIN m : m[k].d = d}
Escrowed(st, d) == SumOver([k \in InDenom(st.bids, d) |-> st.bids[k].a], InDenom(st.bids, d))
                   + SumOver([k \in InDenom(st.cbids, d) |-> st.cbids[k].a], InDenom(st.cbids, d))
EscrowExact(st) == \A d \in DOMAIN st.bal[MKT] : st.bal[MKT][d] = Escrowed(st, d)
Custody(st, hid) ==
  /\ \A k \in DOMAIN st.asks : /\ Has(st.own, k) /\ st.own[k] = MKT
                               /\ Key(st.asks[k].co, st.asks[k].tk) = k
  /\ \A k \in DOMAIN st.own : st.own[k] = MKT => k \in DOMAIN st.asks \/ k \in hid.stray
Uncrossed(st) ==
  /\ \A k \in DOMAIN st.asks : \A b \in DOMAIN st.bids :
       ~(st.bids[b].co = st.asks[k].co /\ st.bids[b].tk = st.asks[k].tk
         /\ st.bids[b].d = st.asks[k].d /\ st.bids[b].a >= st.asks[k].a)
  /\ \A k \in DOMAIN st.asks : \A b \in DOMAIN st.cbids :
       ~(st.cbids[b].co = st.asks[k].co /\ st.cbids[b].d = st.asks[k].d /\ st.cbids[b].a >= st.asks[k].a)
ConfigValid(st) == ValidCfg(st.cfg)
PricesPositive(st) == /\ \A k \in DOMAIN st.asks : st.asks[k].a > 0
                      /\ \A k \in DOMAIN st.bids : st.bids[k].a > 0
                      /\ \A k \in DOMAIN st.cbids : st.cbids[k].a > 0
Total(bal, d) == SumOver([x \in DOMAIN bal |-> bal[x][d]], DOMAIN bal)
Conserved(st, st2) == \A d \in DOMAIN st.bal[MKT] : Total(st.bal, d) = Total(st2.bal, d)
=============================================================================
