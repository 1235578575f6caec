----------------------------- MODULE MarketV2MC -----------------------------
(* Bounded model of the V2 marketplace: TLC visits every reachable state of *)
(* MarketV2 over a small universe of operations, checks the invariants and  *)
(* the step properties in all of them, and prints a shortest operation      *)
(* sequence to each state; these are then executed on the real contract,    *)
(* trying every operation of the universe in every such state.              *)
EXTENDS MarketV2, Json, SequencesExt, IOUtils

CONSTANTS Mode,      \* which universe of operations
          MaxOffers  \* bound on open bids + collection bids

VARIABLES st, hid, hist, obs

D == "ustars"
Coin(d, a) == IF a = 0 THEN <<>> ELSE <<[d |-> d, a |-> a]>>
Users == {"alice", "bobby"}
Lo == 100
Hi == 101
Prices == {Lo, Hi}
Toks == IF Mode = "core" THEN {"1", "2"} ELSE {"1"}
AskIds == {Key("colla", t) : t \in Toks}
BidIds == {"b1", "b2"}
CbIds == {"c1"}
Fee == 5

Det(a, rc, fi) == [d |-> D, a |-> a, rc |-> rc, fi |-> fi]
Op(k, s, f) == [k |-> k, s |-> s, f |-> f]

SellOps == {Op(k, u, Coin(D, Fee)) @@ [co |-> "colla", tk |-> t] @@ Det(a, "", "findx") :
              k \in {"SetAsk", "SellNft"}, u \in Users, t \in Toks, a \in Prices}
UpdAskOps == {Op("UpdAsk", u, <<>>) @@ [id |-> i] @@ Det(a, "carol", "") : u \in Users, i \in AskIds, a \in Prices}
RemAskOps == {Op("RemAsk", u, <<>>) @@ [id |-> i] : u \in Users, i \in AskIds}
AccAskOps == {Op("AccAsk", u, Coin(D, f)) @@ [id |-> i] @@ Det(a, "", "findy") :
                u \in Users, i \in AskIds, a \in Prices, f \in {Hi}}
BidOps == {Op(k, u, Coin(D, a)) @@ [co |-> "colla", tk |-> t] @@ Det(a, "", "findy") :
             k \in {"SetBid", "BuyNft"}, u \in Users, t \in Toks, a \in Prices}
UpdBidOps == {Op("UpdBid", u, Coin(D, f)) @@ [id |-> i] @@ Det(a, "david", "") :
                u \in Users, i \in BidIds, a \in Prices, f \in {0, 1}}
RemBidOps == {Op("RemBid", u, <<>>) @@ [id |-> i] : u \in Users, i \in BidIds}
AccBidOps == {Op("AccBid", u, <<>>) @@ [id |-> i] @@ Det(a, "", "findx") : u \in Users, i \in BidIds, a \in {Hi}}
             \cup {Op("AccBid", u, <<>>) @@ [id |-> i] @@ Det(Lo, "david", "") : u \in Users, i \in BidIds}
CBidOps == {Op(k, u, Coin(D, a)) @@ [co |-> "colla"] @@ Det(a, "", "") :
             k \in {"SetCBid", "BuyColl"}, u \in Users, a \in Prices}
UpdCBidOps == {Op("UpdCBid", u, Coin(D, f)) @@ [id |-> i] @@ Det(a, "david", "findy") :
                u \in Users, i \in CbIds, a \in Prices, f \in {0, 1}}
RemCBidOps == {Op("RemCBid", u, <<>>) @@ [id |-> i] : u \in Users, i \in CbIds}
AccCBidOps == {Op("AccCBid", u, <<>>) @@ [id |-> i, tk |-> t] @@ Det(Lo, "", "") : u \in Users, i \in CbIds, t \in Toks}

BaseCfg == [fm |-> "feemgr", rr |-> "regis", pf |-> 1000, mr |-> 1000, mk |-> 4000, tk |-> 1000, dd |-> D]
EnvOps ==
  {[k |-> "Xfer", s |-> u, co |-> "colla", tk |-> "1", to |-> v] : u \in Users, v \in {"alice", "bobby", "mkt"}}
  \cup {[k |-> k, s |-> u, co |-> "colla"] : k \in {"ApprAll", "UnapAll"}, u \in {"alice"}}
  \cup {[k |-> "SetInfo", s |-> "admin", co |-> "colla", info |-> [ok |-> TRUE, stt |-> s, rr |-> "royal", rs |-> 5000000, ft |-> ft]] :
          s \in {-1, 1000}, ft \in BOOLEAN}
  \cup {[k |-> "Tick", s |-> "", dt |-> 1000]}
AdminOps ==
  {Op("UpdDenom", u, <<>>) @@ [co |-> "colla", d |-> d] : u \in {"admin", "alice"}, d \in {"uatom", D}}
  \cup {Op("SetFee", u, <<>>) @@ [d |-> D, a |-> a] : u \in {"admin", "bobby"}, a \in {Fee, 6}}
  \cup {Op("RemFee", u, <<>>) @@ [d |-> D] : u \in {"admin", "bobby"}}
  \cup {Op("UpdConfig", u, <<>>) @@ [cfg |-> c] : u \in {"admin", "alice"},
          c \in {BaseCfg, [BaseCfg EXCEPT !.pf = 9999, !.mr = 0], [BaseCfg EXCEPT !.pf = 10000],
                 [BaseCfg EXCEPT !.mk = 5000, !.tk = 5000], [BaseCfg EXCEPT !.fm = "XX"], [BaseCfg EXCEPT !.rr = "XX"], [BaseCfg EXCEPT !.rr = "regib", !.mr = 2000]}}
OtherDenom ==
  {Op(k, u, Coin("uatom", Lo)) @@ [co |-> "colla", tk |-> "1", d |-> "uatom", a |-> Lo, rc |-> "", fi |-> ""] :
     k \in {"SetBid", "BuyNft"}, u \in Users}
  \cup {Op("SetAsk", u, Coin(D, Fee)) @@ [co |-> "colla", tk |-> "1", d |-> "uatom", a |-> Lo, rc |-> "", fi |-> ""] : u \in Users}
  \cup {Op("UpdAsk", u, <<>>) @@ [id |-> "colla/1", d |-> "uatom", a |-> Hi, rc |-> "", fi |-> ""] : u \in Users}
  \cup {Op("UpdBid", u, Coin("uatom", Hi)) @@ [id |-> i, d |-> "uatom", a |-> Hi, rc |-> "", fi |-> ""] : u \in Users, i \in {"b1", "b2"}}

CoreOps == SellOps \cup UpdAskOps \cup RemAskOps \cup AccAskOps \cup BidOps \cup UpdBidOps \cup RemBidOps
           \cup AccBidOps \cup CBidOps \cup UpdCBidOps \cup RemCBidOps \cup AccCBidOps
(* parties to an order who may not act on it, and the admin's absence *)
PartyOps ==
  {Op("RemAsk", u, <<>>) @@ [id |-> "colla/1"] : u \in {"carol", "findx", "admin"}}
  \cup {Op("UpdAsk", u, <<>>) @@ [id |-> "colla/1"] @@ Det(Lo, "", "") : u \in {"carol", "findx"}}
  \cup {Op(k, u, <<>>) @@ [id |-> i] : k \in {"RemBid"}, u \in {"david", "findy"}, i \in {"b1"}}
  \cup {Op("UpdBid", u, <<>>) @@ [id |-> "b1"] @@ Det(Lo, "", "") : u \in {"david", "findy"}}
  \cup {Op("RemCBid", "david", <<>>) @@ [id |-> "c1"], Op("UpdCBid", "david", <<>>) @@ [id |-> "c1"] @@ Det(Lo, "", "")}
  \cup {Op("AccBid", u, <<>>) @@ [id |-> "b1"] @@ Det(Lo, "", "") : u \in {"carol", "david", "findx"}}
  \cup {Op("AccCBid", u, <<>>) @@ [id |-> "c1", tk |-> "1"] @@ Det(Lo, "", "") : u \in {"carol", "david", "findx"}}
NoAdmOps == {Op("SetAdmin", u, <<>>) @@ [to |-> t] : u \in {"admin", "carol"}, t \in {"", "carol"}}
            \cup {Op("SetFee", "carol", <<>>) @@ [d |-> D, a |-> 6], Op("UpdDenom", "carol", <<>>) @@ [co |-> "colla", d |-> "uatom"],
                   Op("UpdConfig", "carol", <<>>) @@ [cfg |-> [BaseCfg EXCEPT !.pf = 1]], Op("RemFee", "feemgr", <<>>) @@ [d |-> D]}
All == SetToSeq(PartyOps \cup NoAdmOps \cup CoreOps \cup EnvOps \cup AdminOps \cup OtherDenom)
Universe == SetToSeq(IF Mode = "core" THEN CoreOps \cup PartyOps
                     ELSE IF Mode = "env" THEN
                       {o \in CoreOps \ (UpdAskOps \cup UpdBidOps \cup UpdCBidOps) : o.k \in {"RemAsk", "RemBid", "RemCBid"} \/ o.f # <<>> \/ o.k \in {"AccBid", "AccCBid"}} \cup EnvOps
                     ELSE \* "admin"
                       {o \in CoreOps : o.s = "alice" /\ o.k \in {"SetAsk", "SetBid", "RemAsk", "RemBid", "UpdAsk", "UpdBid"}}
                       \cup {o \in CoreOps : o.s = "bobby" /\ o.k \in {"AccBid", "AccAsk", "BuyNft"}} \cup AdminOps \cup OtherDenom \cup NoAdmOps)

(* complete an operation with the label a new order gets and the hint       *)
Labels(k) == IF k = "SetBid" THEN BidIds ELSE IF k = "SetCBid" THEN CbIds ELSE {}
Fresh(s, k) == LET S == Labels(k) \ (DOMAIN s.bids \cup DOMAIN s.cbids)
               IN IF S = {} THEN "" ELSE IF "b1" \in S THEN "b1" ELSE CHOOSE x \in S : TRUE
Filled(s, op) == op @@ [nid |-> Fresh(s, op.k), hit |-> ""]

Accts == {"mkt", "admin", "alice", "bobby", "carol", "david", "feemgr", "findx", "findy", "royal", "royax"}
Rich == {"admin", "alice", "bobby", "carol", "david"}
Keys == {"colla/1", "colla/2", "colla/3", "collb/1", "collb/2"}
Init ==
  /\ st = [t |-> 0, adm |-> "admin",
           bal |-> [x \in Accts |-> [d \in {"ustars", "uatom"} |-> IF x \in Rich THEN 100000000 ELSE 0]],
           own |-> [k \in Keys |-> IF k \in {"colla/1", "colla/3", "collb/2"} THEN "alice" ELSE "bobby"],
           apr |-> [k \in Keys |-> FALSE],
           opr |-> [x \in {"colla/alice", "colla/bobby"} |-> TRUE],
           asks |-> EmptyMap, bids |-> EmptyMap, cbids |-> EmptyMap,
           cfg |-> BaseCfg, cden |-> [x \in {"colla", "collb"} |-> ""],
           reg |-> [x \in {r \o "/" \o y : r \in Regs, y \in {"colla", "collb"}} |-> [dr |-> "", ds |-> 0, pr |-> "", ps |-> 0]],
           cinfo |-> [x \in {"colla", "collb"} |-> [ok |-> TRUE, stt |-> -1, rr |-> "royal", rs |-> 5000000, ft |-> FALSE]]]
  /\ hid = [lfee |-> (D :> Fee), stray |-> {}]
  /\ hist = <<>>
  /\ obs = [k |-> "Init"]

Next == \E i \in 1..Len(Universe) :
  LET op == Filled(st, Universe[i])
      o == Step(st, hid, op)
  IN /\ o.ok
     /\ Cardinality(DOMAIN o.st.bids \cup DOMAIN o.st.cbids) <= MaxOffers
     /\ "" \notin DOMAIN o.st.bids \cup DOMAIN o.st.cbids
     /\ st' = o.st
     /\ hid' = o.hid
     /\ hist' = Append(hist, i)
     /\ obs' = [k |-> op.k, s |-> op.s, ev |-> o.ev]

View == <<[st EXCEPT !.bal = st.bal["mkt"]], hid>>
Bounded == st.t <= 2000

-----------------------------------------------------------------------------
(* invariants *)
InvEscrow == EscrowExact(st)
InvCustody == Custody(st, hid)
InvUncrossed == Uncrossed(st)
InvConfig == ConfigValid(st)
InvPrices == PricesPositive(st)
(* a creator can cancel, whatever happened since *)
InvCancel ==
  /\ \A b \in DOMAIN st.bids : LET c == st.bids[b].cr
                                   o == Step(st, hid, Op("RemBid", c, <<>>) @@ [id |-> b])
       IN o.ok /\ o.st.bal[c][st.bids[b].d] = st.bal[c][st.bids[b].d] + st.bids[b].a
  /\ \A b \in DOMAIN st.cbids : LET c == st.cbids[b].cr
                                    o == Step(st, hid, Op("RemCBid", c, <<>>) @@ [id |-> b])
       IN o.ok /\ o.st.bal[c][st.cbids[b].d] = st.bal[c][st.cbids[b].d] + st.cbids[b].a
  /\ \A k \in DOMAIN st.asks : ~st.cinfo["colla"].ft =>
        Step(st, hid, Op("RemAsk", st.asks[k].cr, <<>>) @@ [id |-> k]).ok
(* step properties *)
ActConserved == Conserved(st, st')
(* an order disappears or changes only by its creator's message or in a sale *)
Gone(m, m2) == {k \in DOMAIN m : k \notin DOMAIN m2}
ActOwnOrders ==
  LET sale == obs'.k \notin {"Xfer", "Tick", "SetInfo", "ApprAll", "UnapAll"} /\ obs'.ev # <<>> /\ obs'.ev[1].ty = "finalize-sale"
      touched == {x \in DOMAIN st.asks : ~Has(st'.asks, x) \/ st'.asks[x] # st.asks[x]}
      tb == {x \in DOMAIN st.bids : ~Has(st'.bids, x) \/ st'.bids[x] # st.bids[x]}
      tc == {x \in DOMAIN st.cbids : ~Has(st'.cbids, x) \/ st'.cbids[x] # st.cbids[x]}
  IN IF sale THEN Cardinality(touched) <= 1 /\ Cardinality(tb \cup tc) <= 1
     ELSE /\ \A x \in touched : st.asks[x].cr = obs'.s
          /\ \A x \in tb : st.bids[x].cr = obs'.s
          /\ \A x \in tc : st.cbids[x].cr = obs'.s
(* the marketplace pays out of a sale exactly the price *)
StepOk == [][ActConserved /\ ActOwnOrders]_<<st, hid>>

(* the situation a state is in, abstracted: the replayed states are chosen to *)
(* cover all triples of these                                                *)
OrderFeat(m, k) == IF ~Has(m, k) THEN "-" ELSE m[k].cr \o ToString(m[k].a) \o m[k].d \o (IF m[k].rc = "" THEN "" ELSE "r") \o (IF m[k].fi = "" THEN "" ELSE "f")
Feat ==
  << OrderFeat(st.asks, "colla/1"), OrderFeat(st.asks, "colla/2"), OrderFeat(st.bids, "b1"), OrderFeat(st.bids, "b2"), OrderFeat(st.cbids, "c1"),
     IF Has(st.bids, "b1") THEN st.bids["b1"].tk ELSE "", IF Has(st.bids, "b2") THEN st.bids["b2"].tk ELSE "",
     st.own["colla/1"], st.own["colla/2"], ToString(st.cfg), st.cden["colla"], ToString(hid.lfee), hid.stray = {},
     st.cinfo["colla"].ft, st.cinfo["colla"].stt, st.opr["colla/alice"], st.t, st.adm >>
(* printing, once per distinct state *)
Emit == PrintT("ST " \o ToJson([h |-> hist, f |-> Feat]))
Prelude == <<[k |-> "SetFee", s |-> "admin", f |-> <<>>, d |-> D, a |-> Fee],
             [k |-> "ApprAll", s |-> "alice", co |-> "colla"], [k |-> "ApprAll", s |-> "bobby", co |-> "colla"]>>
ASSUME PrintT("UNI " \o ToJson([cfg |-> BaseCfg, pre |-> Prelude, uni |-> Universe, all |-> All]))
=============================================================================
