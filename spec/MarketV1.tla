------------------------------ MODULE MarketV1 ------------------------------
(* The V1 marketplace (asks, bids, collection bids, operators, hooks,       *)
(* governance parameters): state, transitions and properties.               *)
(*                                                                          *)
(* st is a record:                                                          *)
(*   t     block time (ms)                max  largest admissible ask price *)
(*   bal   account -> denom -> amount                                       *)
(*   own   token key "coll/id" -> owner ("" = does not exist)               *)
(*   apr   token key -> expiry of the marketplace's token approval (ms;     *)
(*         -1 never expires, -2 none)                                       *)
(*   opr   "coll/user" -> marketplace is an operator of user                *)
(*   asks  token key -> [ty, co, tk, se, a, fr, rf, ff, ex, ac]             *)
(*   bids  "coll/id/user" -> [co, tk, us, a, ff, ex]                        *)
(*   cbids "coll/user" -> [co, us, a, ff, ex]                               *)
(*   pr    parameters [tf, an, ax, bn, bx, mf, mn, sd, rw, lf]              *)
(*   ops   operator -> 1 ; hk "kind/hook" -> 1 ; hbad failing hook -> 1     *)
(*   cinfo collection -> [ok, stt, rr, rs, ft]                              *)
(* Step(st, op) gives the outcome of one transaction.                       *)
EXTENDS Common

MKT == "mkt"
D == "ustars"
Key(co, tk) == co \o "/" \o tk
BidKey(co, tk, us) == co \o "/" \o tk \o "/" \o us
CBidKey(co, us) == co \o "/" \o us

Acc(st, ev, hk) == [ok |-> TRUE, st |-> st, ev |-> ev, hk |-> hk, why |-> {}]
E(ty, a) == [ty |-> ty, a |-> a]
CoinS(a) == ToString(a) \o D

OwnerOf(st, k) == Get(st.own, k, "")
Live(e, t) == e = -1 \/ e > t
(* the marketplace is approved for the token itself *)
Approved(st, k) == /\ OwnerOf(st, k) # ""
                   /\ (OwnerOf(st, k) = MKT \/ Live(st.apr[k], st.t))
Movable(st, k, co) ==
  /\ OwnerOf(st, k) # ""
  /\ ~st.cinfo[co].ft
  /\ (Approved(st, k) \/ Get(st.opr, co \o "/" \o OwnerOf(st, k), FALSE))
Tradable(st, co) == LET c == st.cinfo[co] IN ~(c.ok /\ c.stt >= 0 /\ c.stt > st.t)
MoveNft(st, k, to) == [st EXCEPT !.own[k] = to, !.apr[k] = -2]
CanPay(st, op) == \A i \in 1..Len(op.f) : Funds(st.bal, op.s, op.f[i].d) >= op.f[i].a
Nonpayable(op) == op.f = <<>>
Expired(o, t) == o.ex <= t
InRange(st, ex, lo, hi) == ex > st.t + lo * 1000 /\ ex <= st.t + hi * 1000
(* exactly one positive coin of the native denom *)
Paid(op) == IF Len(op.f) = 1 /\ op.f[1].d = D THEN op.f[1].a ELSE 0
PaysOk(op, allowNone) == IF op.f = <<>> THEN allowNone ELSE Len(op.f) = 1 /\ op.f[1].d = D /\ op.f[1].a > 0
FeeOk(st, ff) == ff = -1 \/ ff <= st.pr.mf

-----------------------------------------------------------------------------
(* Hooks *)
Listening == {"hooka", "hookb", "hookc"}         \* hooks that record what they are told
AnyHook == Listening \cup {"nohook", "nohookb", "nohookc"}
HookKey(kind, h) == kind \o "/" \o h
Tell(st, kind, ty, o) == {[h |-> h, from |-> MKT, ty |-> ty, o |-> o] : h \in {x \in Listening : Has(st.hk, HookKey(kind, x))}}
TellAsk(st, what, o) == Tell(st, "ask", "ask_" \o what \o "_hook", o)
TellBid(st, what, o) == Tell(st, "bid", "bid_" \o what \o "_hook", o)

-----------------------------------------------------------------------------
(* Money *)
FairBurn(bal, a) == Move(Move(bal, MKT, "burnt", D, a \div 2), MKT, "burnpool", D, a - a \div 2)
FairBurnEv(a) == IF a = 0 THEN <<>>
  ELSE <<E("fair-burn", ("dist_amount" :> ToString(a - a \div 2)) @@ ("burn_amount" :> ToString(a \div 2)))>>

(* x: [co, tk, se, payee, ff, a] the ask in effect; sold to `by`, the token *)
(* going to `to`, the finder named being fi                                 *)
Sale(st, x, by, fi, to) ==
  LET k == Key(x.co, x.tk)
      c == st.cinfo[x.co]
      net == MulFloor(x.a, st.pr.tf * 10000)
      fin == IF fi # "" /\ x.ff > 0 THEN MulFloor(x.a, x.ff * 10000) ELSE 0
      roy == IF c.rr # "" THEN MulFloor(x.a, c.rs) ELSE 0
      rest == x.a - net - fin - roy
      b1 == FairBurn(st.bal, net)
      b2 == Move(b1, MKT, fi, D, fin)
      b3 == Move(b2, MKT, c.rr, D, roy)
      b4 == Move(b3, MKT, x.payee, D, rest)
  IN [ok |-> c.ok /\ rest >= 0 /\ Movable(st, k, x.co),
      why |-> IF ~c.ok THEN {} ELSE IF rest < 0 THEN {"B02"} ELSE {"B03", "B05"},
      st |-> [MoveNft(st, k, to) EXCEPT !.bal = b4],
      ev |-> FairBurnEv(net)
             \o (IF roy > 0 THEN <<E("royalty-payout", ("collection" :> x.co) @@ ("amount" :> CoinS(roy)) @@ ("recipient" :> c.rr))>> ELSE <<>>)
             \o <<E("finalize-sale", ("collection" :> x.co) @@ ("token_id" :> x.tk) @@ ("seller" :> x.se) @@ ("buyer" :> by)
                    @@ ("price" :> ToString(x.a)) @@ ("asset_recipient" :> to))>>,
      hk |-> Tell(st, "sale", "sale_hook", [co |-> x.co, tk |-> x.tk, a |-> x.a, d |-> D, se |-> x.se, by |-> by])]

-----------------------------------------------------------------------------
(* Asks *)
PriceOk(st, op) == op.d = D /\ op.a > 0 /\ op.a >= st.pr.mn /\ op.a <= st.max
SetAsk(st, op) ==
  LET k == Key(op.co, op.tk)
      o == [ty |-> op.ty, co |-> op.co, tk |-> op.tk, se |-> op.s, a |-> op.a, fr |-> op.fr, rf |-> op.rf, ff |-> op.ff, ex |-> op.ex, ac |-> TRUE]
      fee == Paid(op)
  IN IF BadAddr(op.fr) \/ BadAddr(op.rf) THEN Fail({"B07"})
     ELSE IF ~CanPay(st, op) THEN Fail({"B01", "B07"})
     ELSE IF ~PriceOk(st, op) THEN Fail({"B07"})
     ELSE IF OwnerOf(st, k) # op.s THEN Fail({"B07"})
     ELSE IF ~Tradable(st, op.co) THEN Fail({"B07"})
     ELSE IF ~Approved(st, k) THEN Fail({"B07"})
     ELSE IF ~InRange(st, op.ex, st.pr.an, st.pr.ax) THEN Fail({"B07"})
     ELSE IF ~PaysOk(op, TRUE) \/ fee # st.pr.lf THEN Fail({"B07"})
     ELSE IF ~FeeOk(st, op.ff) THEN Fail({"B07"})
     ELSE IF op.rf # "" /\ (op.rf = op.s \/ op.ty # "fixed_price") THEN Fail({"B07"})
     ELSE Acc([st EXCEPT !.asks = Put(@, k, o), !.bal = FairBurn(Move(@, op.s, MKT, D, fee), fee)],
              FairBurnEv(fee) \o
              <<E("set-ask", ("collection" :> op.co) @@ ("token_id" :> op.tk) @@ ("sale_type" :> op.ty) @@ Opt("reserve_for", op.rf)
                  @@ ("seller" :> op.s) @@ ("price" :> CoinS(op.a)) @@ ("expires" :> ToString(op.ex)))>>,
              TellAsk(st, "created", o))

RemAsk(st, op) ==
  LET k == Key(op.co, op.tk) IN
  IF ~Nonpayable(op) THEN Fail({"B01", "B07"})
  ELSE IF OwnerOf(st, k) # op.s THEN Fail({"B07"})
  ELSE IF ~Has(st.asks, k) THEN Fail({"B07"})
  ELSE Acc([st EXCEPT !.asks = Del(@, k)],
           <<E("remove-ask", ("collection" :> op.co) @@ ("token_id" :> op.tk))>>, TellAsk(st, "deleted", st.asks[k]))

UpdPrice(st, op) ==
  LET k == Key(op.co, op.tk)
      o == [st.asks[k] EXCEPT !.a = op.a]
  IN IF ~Nonpayable(op) THEN Fail({"B01", "B07"})
     ELSE IF OwnerOf(st, k) # op.s \/ ~Has(st.asks, k) THEN Fail({"B07"})
     ELSE IF ~PriceOk(st, op) THEN Fail({"B07"})
     ELSE IF ~st.asks[k].ac \/ Expired(st.asks[k], st.t) THEN Fail({"B07"})
     ELSE Acc([st EXCEPT !.asks[k] = o],
              <<E("update-ask", ("collection" :> op.co) @@ ("token_id" :> op.tk) @@ ("price" :> CoinS(op.a)))>>,
              TellAsk(st, "updated", o))

-----------------------------------------------------------------------------
(* Bids *)
(* kind: "SetBid", "BuyNow" or "BuyFor"; to: where a bought token goes *)
Buy(st, op, now, to) ==
  LET k == Key(op.co, op.tk)
      bk == BidKey(op.co, op.tk, op.s)
      price == Paid(op)
      old == Get(st.bids, bk, [a |-> 0])
      listed == Has(st.asks, k)
      ask == st.asks[k]
      \* the old bid is refunded, the payment comes in
      st1 == [st EXCEPT !.bids = Del(@, bk), !.bal = Move(Move(@, op.s, MKT, D, price), MKT, op.s, D, old.a)]
      b == [co |-> op.co, tk |-> op.tk, us |-> op.s, a |-> price, ff |-> op.ff, ex |-> op.ex]
      ev == <<E("set-bid", ("collection" :> op.co) @@ ("sale_type" :> IF op.k = "SetBid" THEN op.ty ELSE "fixed_price") @@ ("token_id" :> op.tk)
                @@ ("bidder" :> op.s) @@ ("bid_price" :> ToString(price)) @@ ("expires" :> ToString(op.ex)))>>
      rests == Acc([st1 EXCEPT !.bids = Put(@, bk, b)], ev, TellBid(st, "created", b))
      x == [co |-> op.co, tk |-> op.tk, se |-> ask.se, payee |-> IF ask.fr = "" THEN ask.se ELSE ask.fr, ff |-> ask.ff, a |-> price]
      s == Sale([st1 EXCEPT !.asks = Del(@, k)], x, op.s, op.fi, to)
  IN IF BadAddr(op.fi) \/ BadAddr(to) THEN Fail({"B04"})
     ELSE IF ~CanPay(st, op) THEN Fail({"B01", "B04"})
     ELSE IF op.fi = op.s THEN Fail({"B04"})
     ELSE IF ~FeeOk(st, op.ff) THEN Fail({"B04"})
     ELSE IF ~PaysOk(op, FALSE) THEN Fail({"B01", "B03", "B04"})
     ELSE IF price < st.pr.mn THEN Fail({"B04"})
     ELSE IF ~InRange(st, op.ex, st.pr.bn, st.pr.bx) THEN Fail({"B04"})
     ELSE IF ~listed THEN (IF now THEN Fail({"B03"}) ELSE rests)
     ELSE IF Expired(ask, st.t) \/ ~ask.ac THEN Fail({"B03"})
     ELSE IF ask.rf # "" /\ ask.rf # op.s THEN Fail({"B03"})
     ELSE IF ask.ty = "auction" THEN (IF price < ask.a THEN Fail({"B03"}) ELSE rests)
     ELSE IF price > ask.a THEN Fail({"B03"})
     ELSE IF price < ask.a THEN rests
     ELSE IF OwnerOf(st, k) # ask.se THEN Fail({"B03"})
     ELSE IF ~s.ok THEN Fail(s.why \ {"B05"})
     ELSE Acc(s.st, s.ev \o ev, s.hk)

RemBid(st, op) ==
  LET bk == BidKey(op.co, op.tk, op.s)
      b == st.bids[bk]
  IN IF ~Nonpayable(op) THEN Fail({"B01", "B04"})
     ELSE IF ~Has(st.bids, bk) THEN Fail({"B04", "B01"})
     ELSE Acc([st EXCEPT !.bids = Del(@, bk), !.bal = Move(@, MKT, op.s, D, b.a)],
              <<E("remove-bid", ("collection" :> op.co) @@ ("token_id" :> op.tk) @@ ("bidder" :> op.s))>>,
              TellBid(st, "deleted", b))

AccBid(st, op) ==
  LET k == Key(op.co, op.tk)
      bk == BidKey(op.co, op.tk, op.us)
      b == st.bids[bk]
      s == Sale([st EXCEPT !.asks = Del(@, k), !.bids = Del(@, bk)],
                [co |-> op.co, tk |-> op.tk, se |-> op.s, payee |-> op.s, ff |-> b.ff, a |-> b.a], op.us, op.fi, op.us)
  IN IF BadAddr(op.us) \/ BadAddr(op.fi) THEN Fail({"B05"})
     ELSE IF ~Nonpayable(op) THEN Fail({"B01", "B05"})
     ELSE IF OwnerOf(st, k) # op.s THEN Fail({"B05"})
     ELSE IF ~Tradable(st, op.co) THEN Fail({"B05"})
     ELSE IF ~Has(st.bids, bk) THEN Fail({"B05", "B01"})
     ELSE IF Expired(b, st.t) THEN Fail({"B05"})
     ELSE IF ~s.ok THEN Fail(s.why \ {"B03"})
     ELSE Acc(s.st, s.ev \o <<E("accept-bid", ("collection" :> op.co) @@ ("token_id" :> op.tk) @@ ("bidder" :> op.us) @@ ("price" :> ToString(b.a)))>>, s.hk)

RejBid(st, op) ==
  LET k == Key(op.co, op.tk)
      bk == BidKey(op.co, op.tk, op.us)
      b == st.bids[bk]
  IN IF BadAddr(op.us) THEN Fail({"B04"})
     ELSE IF ~Nonpayable(op) THEN Fail({"B01", "B04"})
     ELSE IF OwnerOf(st, k) # op.s THEN Fail({"B04"})
     ELSE IF ~Has(st.bids, bk) THEN Fail({"B04", "B01"})
     ELSE Acc([st EXCEPT !.bids = Del(@, bk), !.bal = Move(@, MKT, op.us, D, b.a)],
              <<E("reject-bid", ("collection" :> op.co) @@ ("token_id" :> op.tk) @@ ("bidder" :> op.us) @@ ("price" :> ToString(b.a)))>>,
              TellBid(st, "deleted", b))

SetCBid(st, op) ==
  LET bk == CBidKey(op.co, op.s)
      price == Paid(op)
      old == Get(st.cbids, bk, [a |-> 0])
      b == [co |-> op.co, us |-> op.s, a |-> price, ff |-> op.ff, ex |-> op.ex]
  IN IF ~CanPay(st, op) THEN Fail({"B01", "B04"})
     ELSE IF ~PaysOk(op, FALSE) THEN Fail({"B01", "B04"})
     ELSE IF price < st.pr.mn \/ ~InRange(st, op.ex, st.pr.bn, st.pr.bx) \/ ~FeeOk(st, op.ff) THEN Fail({"B04"})
     ELSE Acc([st EXCEPT !.cbids = Put(@, bk, b), !.bal = Move(Move(@, op.s, MKT, D, price), MKT, op.s, D, old.a)],
              <<E("set-collection-bid", ("collection" :> op.co) @@ ("bidder" :> op.s) @@ ("bid_price" :> ToString(price)) @@ ("expires" :> ToString(op.ex)))>>, {})

RemCBid(st, op) ==
  LET bk == CBidKey(op.co, op.s)
  IN IF ~Nonpayable(op) THEN Fail({"B01", "B04"})
     ELSE IF ~Has(st.cbids, bk) THEN Fail({"B04", "B01"})
     ELSE Acc([st EXCEPT !.cbids = Del(@, bk), !.bal = Move(@, MKT, op.s, D, st.cbids[bk].a)],
              <<E("remove-collection-bid", ("collection" :> op.co) @@ ("bidder" :> op.s))>>, {})

AccCBid(st, op) ==
  LET k == Key(op.co, op.tk)
      bk == CBidKey(op.co, op.us)
      b == st.cbids[bk]
      s == Sale([st EXCEPT !.asks = Del(@, k), !.cbids = Del(@, bk)],
                [co |-> op.co, tk |-> op.tk, se |-> op.s, payee |-> op.s, ff |-> b.ff, a |-> b.a], op.us, op.fi, op.us)
  IN IF BadAddr(op.us) \/ BadAddr(op.fi) THEN Fail({"B05"})
     ELSE IF ~Nonpayable(op) THEN Fail({"B01", "B05"})
     ELSE IF OwnerOf(st, k) # op.s THEN Fail({"B05"})
     ELSE IF ~Tradable(st, op.co) THEN Fail({"B05"})
     ELSE IF ~Has(st.cbids, bk) THEN Fail({"B05", "B01"})
     ELSE IF Expired(b, st.t) THEN Fail({"B05"})
     ELSE IF ~s.ok THEN Fail(s.why \ {"B03"})
     ELSE Acc(s.st, s.ev \o <<E("accept-collection-bid", ("collection" :> op.co) @@ ("token_id" :> op.tk) @@ ("bidder" :> op.us)
                               @@ ("seller" :> op.s) @@ ("price" :> ToString(b.a)))>>, s.hk)

-----------------------------------------------------------------------------
(* Operators *)
IsOp(st, op) == Has(st.ops, op.s)
BoolS(b) == IF b THEN "true" ELSE "false"
SyncAsk(st, op) ==
  LET k == Key(op.co, op.tk)
      now == Approved(st, k)
      o == [st.asks[k] EXCEPT !.ac = now]
  IN IF ~Nonpayable(op) THEN Fail({"B01", "B08"})
     ELSE IF ~IsOp(st, op) THEN Fail({"B08"})
     ELSE IF ~Has(st.asks, k) THEN Fail({"B08"})
     ELSE IF st.asks[k].ac = now THEN Fail({"B08"})
     ELSE Acc([st EXCEPT !.asks[k] = o],
              <<E("update-ask-state", ("collection" :> op.co) @@ ("token_id" :> op.tk) @@ ("is_active" :> BoolS(now)))>>,
              TellAsk(st, "updated", o))
StaleAsk(st, op) ==
  LET k == Key(op.co, op.tk)
      o == st.asks[k]
      has == OwnerOf(st, k) # ""
      ap == Approved(st, k)
      exp == Expired(o, st.t)
  IN IF ~Nonpayable(op) THEN Fail({"B01", "B08"})
     ELSE IF ~IsOp(st, op) THEN Fail({"B08"})
     ELSE IF ~Has(st.asks, k) THEN Fail({"B08"})
     ELSE IF has /\ ap /\ ~exp THEN Fail({"B08"})
     ELSE Acc([st EXCEPT !.asks = Del(@, k)],
              <<E("remove-ask", ("collection" :> op.co) @@ ("token_id" :> op.tk) @@ ("operator" :> op.s) @@ ("expired" :> BoolS(exp))
                  @@ ("has_owner" :> BoolS(has)) @@ ("has_approval" :> BoolS(ap)))>>,
              TellAsk(st, "deleted", o))
Stale(st, b) == b.ex + st.pr.sd * 1000 <= st.t
StaleBid(st, op, iscb) ==
  LET bk == IF iscb THEN CBidKey(op.co, op.us) ELSE BidKey(op.co, op.tk, op.us)
      book == IF iscb THEN st.cbids ELSE st.bids
      b == book[bk]
      rw == MulFloor(b.a, st.pr.rw * 10000)
      bal2 == Move(Move(st.bal, MKT, op.us, D, b.a - rw), MKT, op.s, D, rw)
      at == ("collection" :> op.co) @@ ("bidder" :> op.us) @@ ("operator" :> op.s) @@ ("reward" :> ToString(rw))
  IN IF BadAddr(op.us) THEN Fail({"B06"})
     ELSE IF ~Nonpayable(op) THEN Fail({"B01", "B06"})
     ELSE IF ~IsOp(st, op) THEN Fail({"B06"})
     ELSE IF ~Has(book, bk) THEN Fail({"B06", "B01"})
     ELSE IF ~Stale(st, b) THEN Fail({"B06"})
     ELSE IF iscb THEN Acc([st EXCEPT !.cbids = Del(@, bk), !.bal = bal2], <<E("remove-stale-collection-bid", at)>>, {})
     ELSE Acc([st EXCEPT !.bids = Del(@, bk), !.bal = bal2], <<E("remove-stale-bid", at @@ ("token_id" :> op.tk))>>, TellBid(st, "deleted", b))

-----------------------------------------------------------------------------
(* Governance *)
RatesOk(p) == /\ \A f \in {"tf", "mf", "rw"} \cap DOMAIN p : p[f] <= 10000
              /\ \A x \in {<<"an", "ax">>, <<"bn", "bx">>} : x[1] \in DOMAIN p => p[x[1]] <= p[x[2]]
UpdParams(st, op) ==
  IF ~RatesOk(op.p) THEN Fail({"B11"})
  ELSE Acc([st EXCEPT !.pr = [f \in DOMAIN @ |-> IF f \in DOMAIN op.p THEN op.p[f] ELSE @[f]]], <<>>, {})
AddOp(st, op) == IF BadAddr(op.x) \/ Has(st.ops, op.x) THEN Fail({"B11"}) ELSE Acc([st EXCEPT !.ops = Put(@, op.x, 1)], <<>>, {})
RemOp(st, op) == IF ~Has(st.ops, op.x) THEN Fail({"B11"}) ELSE Acc([st EXCEPT !.ops = Del(@, op.x)], <<>>, {})
AddHook(st, op) ==
  LET key == HookKey(op.h, op.x) IN
  IF BadAddr(op.x) \/ Has(st.hk, key) THEN Fail({"B11"})
  ELSE IF Cardinality({h \in AnyHook : Has(st.hk, HookKey(op.h, h))}) >= 5 THEN Fail({"B11"})
  ELSE Acc([st EXCEPT !.hk = Put(@, key, 1)], <<>>, {})
RemHook(st, op) ==
  LET key == HookKey(op.h, op.x) IN
  IF ~Has(st.hk, key) THEN Fail({"B11"}) ELSE Acc([st EXCEPT !.hk = Del(@, key)], <<>>, {})

(* Another instance: what a configuration must make of it, or "refused"     *)
ParamNames == {"tf", "an", "ax", "bn", "bx", "mf", "mn", "sd", "rw", "lf"}
SetOfSeq(s) == {s[i] : i \in 1..Len(s)}
InstOk(c) == RatesOk(c) /\ ~c.ht /\ ~BadAddr(c.sh) /\ \A x \in SetOfSeq(c.ops) : ~BadAddr(x)
InstPr(c) == [f \in ParamNames |-> c[f]]
InstOps(c) == [x \in SetOfSeq(c.ops) |-> 1]
InstHk(c) == IF c.sh = "" THEN EmptyMap ELSE (HookKey("sale", c.sh) :> 1)
Inst(st, op) == IF InstOk(op.cfg) THEN Acc(st, <<>>, {}) ELSE Fail({"B11"})
(* migration from the state of the named contract at a version relative to the code's *)
Migrate(st, op) ==
  IF op.s # "admin" THEN Fail({"ENV"})
  ELSE IF op.other THEN Fail({"B11"})
  ELSE IF op.ver \in {"same", "patch-", "major-", "pre-"} THEN Acc(st, <<>>, {})
  ELSE Fail({"B11"})

-----------------------------------------------------------------------------
(* Environment *)
Xfer(st, op) == LET k == Key(op.co, op.tk) IN
  IF OwnerOf(st, k) # op.s \/ st.cinfo[op.co].ft THEN Fail({"ENV"}) ELSE Acc(MoveNft(st, k, op.to), <<>>, {})
Burn(st, op) == LET k == Key(op.co, op.tk) IN
  IF OwnerOf(st, k) # op.s THEN Fail({"ENV"}) ELSE Acc(MoveNft(st, k, ""), <<>>, {})
Mint(st, op) == LET k == Key(op.co, op.tk) IN
  IF OwnerOf(st, k) # "" THEN Fail({"ENV"}) ELSE Acc([st EXCEPT !.own = Put(@, k, op.to), !.apr = Put(@, k, -2)], <<>>, {})
Appr(st, op, e) == LET k == Key(op.co, op.tk) IN
  IF OwnerOf(st, k) # op.s THEN Fail({"ENV"}) ELSE Acc([st EXCEPT !.apr[k] = e], <<>>, {})
ApprAll(st, op, v) == Acc([st EXCEPT !.opr[op.co \o "/" \o op.s] = v], <<>>, {})
SetInfo(st, op) == Acc([st EXCEPT !.cinfo[op.co] = op.info], <<>>, {})
HookBad(st, op) == Acc([st EXCEPT !.hbad = IF op.bad THEN Put(@, op.x, 1) ELSE Del(@, op.x)], <<>>, {})
Tick(st, op) == Acc([st EXCEPT !.t = @ + op.dt], <<>>, {})

Step(st, op) ==
  CASE op.k = "SetAsk"   -> SetAsk(st, op)
    [] op.k = "RemAsk"   -> RemAsk(st, op)
    [] op.k = "UpdPrice" -> UpdPrice(st, op)
    [] op.k = "SetBid"   -> Buy(st, op, FALSE, op.s)
    [] op.k = "BuyNow"   -> Buy(st, op, TRUE, op.s)
    [] op.k = "BuyFor"   -> Buy(st, op, TRUE, op.ar)
    [] op.k = "RemBid"   -> RemBid(st, op)
    [] op.k = "AccBid"   -> AccBid(st, op)
    [] op.k = "RejBid"   -> RejBid(st, op)
    [] op.k = "SetCBid"  -> SetCBid(st, op)
    [] op.k = "RemCBid"  -> RemCBid(st, op)
    [] op.k = "AccCBid"  -> AccCBid(st, op)
    [] op.k = "SyncAsk"  -> SyncAsk(st, op)
    [] op.k = "StaleAsk" -> StaleAsk(st, op)
    [] op.k = "StaleBid" -> StaleBid(st, op, FALSE)
    [] op.k = "StaleCBid" -> StaleBid(st, op, TRUE)
    [] op.k = "UpdParams" -> UpdParams(st, op)
    [] op.k = "AddOp"    -> AddOp(st, op)
    [] op.k = "RemOp"    -> RemOp(st, op)
    [] op.k = "AddHook"  -> AddHook(st, op)
    [] op.k = "RemHook"  -> RemHook(st, op)
    [] op.k = "Inst"     -> Inst(st, op)
    [] op.k = "Migrate"  -> Migrate(st, op)
    [] op.k = "Xfer"     -> Xfer(st, op)
    [] op.k = "Burn"     -> Burn(st, op)
    [] op.k = "Mint"     -> Mint(st, op)
    [] op.k = "Appr"     -> Appr(st, op, op.ex)
    [] op.k = "Unap"     -> Appr(st, op, -2)
    [] op.k = "ApprAll"  -> ApprAll(st, op, TRUE)
    [] op.k = "UnapAll"  -> ApprAll(st, op, FALSE)
    [] op.k = "SetInfo"  -> SetInfo(st, op)
    [] op.k = "HookBad"  -> HookBad(st, op)
    [] op.k = "Tick"     -> Tick(st, op)

-----------------------------------------------------------------------------
(* Invariants *)
Sum(m) == SumOver([k \in DOMAIN m |-> m[k].a], DOMAIN m)
EscrowExact(st) == \A d \in DOMAIN st.bal[MKT] : st.bal[MKT][d] = IF d = D THEN Sum(st.bids) + Sum(st.cbids) ELSE 0
Total(bal, d) == SumOver([x \in DOMAIN bal |-> bal[x][d]], DOMAIN bal)
Conserved(st, st2) == \A d \in DOMAIN st.bal[MKT] : Total(st.bal, d) = Total(st2.bal, d)
KeysTrue(st) ==
  /\ \A k \in DOMAIN st.asks : k = Key(st.asks[k].co, st.asks[k].tk)
  /\ \A k \in DOMAIN st.bids : k = BidKey(st.bids[k].co, st.bids[k].tk, st.bids[k].us)
  /\ \A k \in DOMAIN st.cbids : k = CBidKey(st.cbids[k].co, st.cbids[k].us)
PricesOk(st) == \A k \in DOMAIN st.asks : st.asks[k].a > 0 /\ st.asks[k].a <= st.max
BidsPositive(st) == (\A k \in DOMAIN st.bids : st.bids[k].a > 0) /\ (\A k \in DOMAIN st.cbids : st.cbids[k].a > 0)
ReservedFixed(st) == \A k \in DOMAIN st.asks : st.asks[k].rf # "" => st.asks[k].ty = "fixed_price" /\ st.asks[k].rf # st.asks[k].se
ParamsValid(st) == RatesOk(st.pr)
SetsTrue(st) == /\ \A k \in DOMAIN st.ops : st.ops[k] = 1
                /\ \A k \in DOMAIN st.hk : st.hk[k] = 1
=============================================================================
