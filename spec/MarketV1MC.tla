----------------------------- MODULE MarketV1MC -----------------------------
(* Bounded model of the V1 marketplace, in the manner of MarketV2MC.         *)
EXTENDS MarketV1, Json, SequencesExt, IOUtils

CONSTANTS Mode, MaxOffers

VARIABLES st, hist, obs

C1 == "colla"
Coin(a) == IF a = 0 THEN <<>> ELSE <<[d |-> D, a |-> a]>>
Users == {"alice", "bobby"}
Lo == 100
Hi == 101
Prices == {Lo, Hi}
Ex == 500000
Op(k, s, f) == [k |-> k, s |-> s, f |-> f]
Tk == [co |-> C1, tk |-> "0"]

SetAskO(u, ty, a, fr, rf, ff, fee) ==
  Op("SetAsk", u, Coin(fee)) @@ Tk @@ [ty |-> ty, d |-> D, a |-> a, fr |-> fr, rf |-> rf, ff |-> ff, ex |-> Ex]
BidO(k, u, ty, a, fi, ff) == Op(k, u, Coin(a)) @@ Tk @@ [ty |-> ty, fi |-> fi, ff |-> ff, ex |-> Ex]
On(k, u) == Op(k, u, <<>>) @@ Tk

AskOps == {SetAskO(u, "fixed_price", Lo, "", "", 500, 0) : u \in Users}
          \cup {SetAskO("alice", "fixed_price", Hi, "carol", "bobby", -1, 0), SetAskO("alice", "auction", Lo, "carol", "", 300, 0)}
          \cup {On("RemAsk", u) : u \in Users}
          \cup {On("UpdPrice", u) @@ [d |-> D, a |-> Hi] : u \in Users}
BidOps == {BidO("SetBid", u, ty, a, "", 500) : u \in Users, ty \in {"fixed_price", "auction"}, a \in {Lo}}
          \cup {BidO("SetBid", u, "fixed_price", Hi, "findx", -1) : u \in Users}
          \cup {BidO("BuyNow", u, "fixed_price", a, "findx", -1) : u \in Users, a \in Prices}
          \cup {BidO("BuyFor", "bobby", "fixed_price", Lo, "", 500) @@ [ar |-> "david"]}
          \cup {On("RemBid", u) : u \in Users}
          \cup {On(k, u) @@ [us |-> v, fi |-> "findy"] : k \in {"AccBid"}, u \in Users, v \in Users}
          \cup {On("RejBid", u) @@ [us |-> v] : u \in Users, v \in Users}
CBidOps == {Op("SetCBid", u, Coin(a)) @@ [co |-> C1, ff |-> 500, ex |-> Ex] : u \in Users, a \in Prices}
           \cup {Op("RemCBid", u, <<>>) @@ [co |-> C1] : u \in Users}
           \cup {On("AccCBid", u) @@ [us |-> v, fi |-> "findx"] : u \in Users, v \in Users}
TickO(n) == [k |-> "Tick", s |-> "", dt |-> n]
TokOps == {[k |-> "Appr", s |-> u, ex |-> -1] @@ Tk : u \in Users} \cup {[k |-> "Unap", s |-> u] @@ Tk : u \in Users}
XferOps == {[k |-> "Xfer", s |-> u, to |-> v] @@ Tk : u \in Users, v \in {"alice", "bobby", "mkt"}}
OperOps == {On(k, u) : k \in {"SyncAsk", "StaleAsk"}, u \in {"opera", "alice"}}
           \cup {On("StaleBid", u) @@ [us |-> "bobby"] : u \in {"opera", "alice"}}
           \cup {Op("StaleCBid", u, <<>>) @@ [co |-> C1, us |-> "bobby"] : u \in {"opera", "bobby"}}
Gov(k) == Op(k, "gov", <<>>)
P0 == [tf |-> 200, an |-> 0, ax |-> 1000, bn |-> 0, bx |-> 1000, mf |-> 1000, mn |-> 2, sd |-> 100, rw |-> 500, lf |-> 0]
GovOps ==
  {Gov("UpdParams") @@ [p |-> p] : p \in {[tf |-> 9700, rw |-> 10000], [tf |-> 10001], [mf |-> 10001, mn |-> 5], [rw |-> 10001],
      [lf |-> 5, sd |-> 0], [mn |-> 101], [an |-> 501, ax |-> 501], [an |-> 2, ax |-> 1], [bn |-> 600, bx |-> 700], [mf |-> 0]}}
  \cup {Gov(k) @@ [x |-> x] : k \in {"AddOp", "RemOp"}, x \in {"opera", "operb"}}
HookOps ==
  {Gov(k) @@ [h |-> h, x |-> "hooka"] : k \in {"AddHook", "RemHook"}, h \in {"ask", "bid", "sale"}}
  \cup {Gov("AddHook") @@ [h |-> "sale", x |-> "hookb"]}
  \cup {[k |-> "HookBad", s |-> "admin", x |-> "hooka", bad |-> b] : b \in BOOLEAN}

AllOps == AskOps \cup BidOps \cup CBidOps \cup TokOps \cup XferOps \cup OperOps \cup GovOps \cup HookOps \cup {TickO(300000), TickO(100000), TickO(1)}
          \cup {[k |-> k, s |-> u, co |-> C1] : k \in {"ApprAll", "UnapAll"}, u \in Users}
          \cup {[k |-> "Appr", s |-> "alice", ex |-> 300000] @@ Tk}
All == SetToSeq(AllOps)
Universe == SetToSeq(
  IF Mode = "core" THEN AskOps \cup BidOps \cup CBidOps \cup TokOps
  ELSE IF Mode = "life" THEN
    (* listed tokens change hands, lose and regain their approval, expire *)
    {o \in AskOps : (o.k = "SetAsk" /\ (o.a = Lo \/ o.rf # "")) \/ o.k = "RemAsk"}
    \cup {BidO("SetBid", "bobby", ty, Lo, "", 500) : ty \in {"fixed_price", "auction"}}
    \cup {BidO("BuyNow", u, "fixed_price", Lo, "findx", -1) : u \in {"bobby", "carol"}}
    \cup {BidO("BuyFor", "carol", "fixed_price", Lo, "", 500) @@ [ar |-> "david"], BidO("BuyFor", "carol", "fixed_price", Hi, "", 500) @@ [ar |-> "bobby"]}
    \cup {On("AccBid", u) @@ [us |-> "bobby", fi |-> "findy"] : u \in Users} \cup {On("RejBid", "alice") @@ [us |-> "bobby"]}
    \cup {Op("SetCBid", "bobby", Coin(Hi)) @@ [co |-> C1, ff |-> 500, ex |-> Ex], On("AccCBid", "alice") @@ [us |-> "bobby", fi |-> "findx"]}
    \cup {o \in XferOps : o.to # "mkt"} \cup TokOps \cup {TickO(400000), TickO(100000)}
    \cup {Op("ApprAll", "bobby", <<>>) @@ [co |-> C1]} \cup {o \in OperOps : o.s = "opera" /\ o.k \in {"SyncAsk", "StaleAsk"}}
  ELSE IF Mode = "ops" THEN
    {o \in AskOps : o.s = "alice" /\ (o.k # "SetAsk" \/ o.rf = "")} \cup {o \in BidOps : o.s = "bobby" /\ o.k \in {"SetBid", "BuyNow"}}
    \cup {o \in BidOps \cup CBidOps : o.s = "alice" /\ o.k \in {"AccBid", "AccCBid"}}
    \cup {o \in CBidOps : o.s = "bobby" /\ o.k = "SetCBid"}
    \cup {[k |-> k, s |-> "alice"] @@ Tk : k \in {"Unap", "Burn"}} \cup {[k |-> "Appr", s |-> "alice", ex |-> e] @@ Tk : e \in {-1, 300000}}
    \cup XferOps \cup OperOps \cup {TickO(300000), TickO(200000), TickO(100000)}
    \cup {Gov("RemOp") @@ [x |-> "opera"], Gov("AddOp") @@ [x |-> "bobby"]} \cup {On("StaleBid", "bobby") @@ [us |-> "bobby"], Op("StaleCBid", "bobby", <<>>) @@ [co |-> C1, us |-> "bobby"]} \cup {[k |-> "Mint", s |-> "admin", to |-> "bobby"] @@ Tk}
  ELSE IF Mode = "gov" THEN
    {o \in AskOps : o.s = "alice" /\ (o.k # "SetAsk" \/ o.rf = "")} \cup {SetAskO("alice", "fixed_price", Lo, "", "", 500, 5)}
    \cup {o \in BidOps : o.s = "bobby" /\ o.k \in {"SetBid", "BuyNow"}} \cup {o \in BidOps : o.s = "alice" /\ o.k = "AccBid"}
    \cup {o \in OperOps : o.s = "opera" /\ o.k = "StaleBid"} \cup {TickO(300000)} \cup GovOps
  ELSE \* "hook"
    {o \in AskOps : o.s = "alice" /\ (o.k # "SetAsk" \/ o.ty = "auction" \/ o.rf = "")} \cup {o \in BidOps : o.s = "bobby" /\ o.k \in {"SetBid", "BuyNow", "RemBid"} /\ (o.k = "RemBid" \/ o.fi # "findx")}
    \cup {BidO("BuyNow", "bobby", "fixed_price", Lo, "findx", -1)}
    \cup {o \in BidOps \cup CBidOps : o.s = "alice" /\ o.k \in {"AccBid", "RejBid", "AccCBid"}}
    \cup {o \in CBidOps : o.s = "bobby" /\ o.k = "SetCBid"}
    \cup {o \in OperOps : o.s = "opera"} \cup {TickO(300000)} \cup {[k |-> "Unap", s |-> "alice"] @@ Tk} \cup HookOps)

Accts == {"mkt", "admin", "opera", "operb", "findx", "findy", "royal", "fundr", "burnt", "burnpool", "community", "hooka", "hookb",
          "alice", "bobby", "carol", "david"}
Toks == {"colla/0", "colla/1", "colla/2", "collb/1", "collb/7"}
Init ==
  /\ st = [t |-> 0, max |-> 2000000001,
           bal |-> [x \in Accts |-> [d \in {D, "uatom"} |-> IF x \in {"alice", "bobby", "carol", "david"} THEN 100000000 ELSE 0]],
           own |-> [k \in Toks |-> IF k \in {"colla/1", "collb/1"} THEN "bobby" ELSE "alice"],
           apr |-> [k \in Toks |-> IF k = "colla/0" THEN -1 ELSE -2],
           opr |-> [k \in {c \o "/" \o u : c \in {"colla", "collb"}, u \in {"alice", "bobby", "carol", "david"}} |-> FALSE],
           asks |-> EmptyMap, bids |-> EmptyMap, cbids |-> EmptyMap, pr |-> P0,
           ops |-> ("opera" :> 1), hk |-> EmptyMap, hbad |-> EmptyMap,
           cinfo |-> ("colla" :> [ok |-> TRUE, stt |-> -1, rr |-> "royal", rs |-> 5000000, ft |-> FALSE])
                     @@ ("collb" :> [ok |-> TRUE, stt |-> -1, rr |-> "", rs |-> 5000000, ft |-> FALSE])]
  /\ hist = <<>>
  /\ obs = [k |-> "Init"]

Next == \E i \in 1..Len(Universe) :
  LET op == Universe[i]
      o == Step(st, op)
  IN /\ o.ok
     /\ Cardinality(DOMAIN o.st.bids) + Cardinality(DOMAIN o.st.cbids) <= MaxOffers
     /\ st' = o.st
     /\ hist' = Append(hist, i)
     /\ obs' = [k |-> op.k, s |-> op.s, us |-> IF "us" \in DOMAIN op THEN op.us ELSE "", ev |-> o.ev]

View == [st EXCEPT !.bal = st.bal[MKT]]
Bounded == st.t <= 700000
-----------------------------------------------------------------------------
InvEscrow == EscrowExact(st)
InvKeys == KeysTrue(st)
InvPrices == PricesOk(st) /\ BidsPositive(st) /\ ReservedFixed(st)
InvParams == ParamsValid(st) /\ SetsTrue(st)
(* every bid can be withdrawn in full by its bidder, in every state *)
InvCancel ==
  /\ \A b \in DOMAIN st.bids : LET x == st.bids[b] o == Step(st, Op("RemBid", x.us, <<>>) @@ [co |-> x.co, tk |-> x.tk])
       IN o.ok /\ o.st.bal[x.us][D] = st.bal[x.us][D] + x.a
  /\ \A b \in DOMAIN st.cbids : LET x == st.cbids[b] o == Step(st, Op("RemCBid", x.us, <<>>) @@ [co |-> x.co])
       IN o.ok /\ o.st.bal[x.us][D] = st.bal[x.us][D] + x.a
(* an owner can always delist *)
InvDelist == \A k \in DOMAIN st.asks : OwnerOf(st, k) # "" =>
               Step(st, Op("RemAsk", OwnerOf(st, k), <<>>) @@ [co |-> st.asks[k].co, tk |-> st.asks[k].tk]).ok
Changed(m, n) == {x \in DOMAIN m : ~Has(n, x) \/ n[x] # m[x]}
ActConserved == Conserved(st, st')
(* a bid disappears or changes only by its bidder, the owner of the token   *)
(* (sale or rejection), a sale, or an operator after it has gone stale      *)
ActBids ==
  LET b == Changed(st.bids, st'.bids)  c == Changed(st.cbids, st'.cbids) IN
  /\ Cardinality(b) + Cardinality(c) <= 1
  /\ \A x \in b : \/ st.bids[x].us = obs'.s
                  \/ OwnerOf(st, Key(st.bids[x].co, st.bids[x].tk)) = obs'.s /\ st.bids[x].us = obs'.us
                  \/ Has(st.ops, obs'.s) /\ Stale(st, st.bids[x])
  /\ \A x \in c : \/ st.cbids[x].us = obs'.s
                  \/ st.cbids[x].us = obs'.us /\ \E i \in 1..Len(obs'.ev) : obs'.ev[i].ty = "finalize-sale"
                  \/ Has(st.ops, obs'.s) /\ Stale(st, st.cbids[x])
(* an ask disappears by its owner, in a sale, or by an operator when it is  *)
(* expired, unapproved or orphaned; operators change only its active flag   *)
ActAsks == \A x \in Changed(st.asks, st'.asks) :
  \/ OwnerOf(st, x) = obs'.s
  \/ \E i \in 1..Len(obs'.ev) : obs'.ev[i].ty = "finalize-sale"
  \/ /\ Has(st.ops, obs'.s)
     /\ IF Has(st'.asks, x) THEN [st'.asks[x] EXCEPT !.ac = st.asks[x].ac] = st.asks[x]
        ELSE Expired(st.asks[x], st.t) \/ ~Approved(st, x)
(* a token moves only by its owner's hand or in a sale of it *)
ActTokens == \A k \in DOMAIN st.own : st.own[k] # "" /\ st'.own[k] # st.own[k] =>
  obs'.s = st.own[k] \/ \E i \in 1..Len(obs'.ev) : obs'.ev[i].ty = "finalize-sale" /\ obs'.ev[i].a["seller"] = st.own[k]
ActGov == (st.pr # st'.pr \/ st.ops # st'.ops \/ st.hk # st'.hk) => obs'.s = "gov"
StepOk == [][ActConserved /\ ActBids /\ ActAsks /\ ActTokens /\ ActGov]_st

(* the situation a state is in, abstracted: the replayed states are chosen to *)
(* cover all triples of these                                                *)
YN(b) == IF b THEN "y" ELSE "n"
BidFeat(m, k) == IF ~Has(m, k) THEN "-" ELSE
  (IF m[k].a = Lo THEN "l" ELSE "h") \o (IF Stale(st, m[k]) THEN "s" ELSE IF Expired(m[k], st.t) THEN "x" ELSE "") \o (IF m[k].ff = -1 THEN "" ELSE "f")
Feat ==
  LET k == "colla/0"  has == Has(st.asks, k)  own == OwnerOf(st, k) IN
  << IF ~has THEN "-" ELSE st.asks[k].ty, has /\ st.asks[k].ac, has /\ Expired(st.asks[k], st.t), has /\ Approved(st, k), own, has /\ st.asks[k].se = own,
     IF ~has THEN 0 ELSE st.asks[k].a, has /\ st.asks[k].rf # "", has /\ st.asks[k].fr # "",
     BidFeat(st.bids, BidKey("colla", "0", "alice")), BidFeat(st.bids, BidKey("colla", "0", "bobby")),
     BidFeat(st.cbids, CBidKey("colla", "alice")), BidFeat(st.cbids, CBidKey("colla", "bobby")),
     st.apr[k], ToString(st.pr), DOMAIN st.ops = {}, ToString(st.hk), DOMAIN st.hbad # {}, st.t \div 100000, st.opr["colla/bobby"] >>
Emit == PrintT("ST " \o ToJson([h |-> hist, f |-> Feat]))
Cfg == P0 @@ [ops |-> <<"opera">>, sh |-> "", ht |-> FALSE]
Prelude == <<[k |-> "Appr", s |-> "alice", ex |-> -1] @@ Tk>>
ASSUME PrintT("UNI " \o ToJson([root |-> [cfg |-> Cfg, scale |-> "1", unit |-> 1], pre |-> Prelude, uni |-> Universe, all |-> All]))
=============================================================================
