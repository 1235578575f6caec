----------------------------- MODULE MarketRAMC -----------------------------
(* Bounded model of the reserve auction, in the manner of MarketV2MC.  The   *)
(* universe of operations depends on Mode; a prelude, executed by Step here  *)
(* and by the real contract there, sets the scene.                           *)
EXTENDS MarketRA, Json, SequencesExt, IOUtils

CONSTANTS Mode, MaxOffers
Deep == MaxOffers > 1

VARIABLES st, hist, obs

D == "ustars"
Coin(a) == IF a = 0 THEN <<>> ELSE <<[d |-> D, a |-> a]>>
Op(k, s, f) == [k |-> k, s |-> s, f |-> f]
T0 == [co |-> "colla", tk |-> "0"]     \* alice's
T1 == [co |-> "colla", tk |-> "1"]     \* bobby's
T10 == [co |-> "colla", tk |-> "10"]   \* alice's
T2 == [co |-> "colla", tk |-> "2"]     \* bobby's
Fee == IF Mode \in {"core", "gov"} THEN 10 ELSE 0
P0 == [fb |-> "faira", tf |-> 2000000, mi |-> 1000000, mn |-> 10, mx |-> 100, ex |-> 5, fd |-> D, fa |-> Fee,
       lim |-> IF Mode \in {"ends", "halt"} THEN 1 ELSE 2, th |-> 30, bu |-> 15, po |-> 20]
Mins == <<[d |-> D, a |-> 5]>>

CreateO(u, t, d, a, du, fr) == Op("Create", u, Coin(Fee)) @@ t @@ [d |-> d, a |-> a, du |-> du, fr |-> fr]
UpdResO(u, t, a) == Op("UpdRes", u, <<>>) @@ t @@ [d |-> D, a |-> a]
CancelO(u, t) == Op("Cancel", u, <<>>) @@ t
BidO(u, t, a) == Op("Bid", u, Coin(a)) @@ t
SettleO(u, t) == Op("Settle", u, <<>>) @@ t
EndO == [k |-> "End", s |-> ""]
BeginO == [k |-> "Begin", s |-> ""]
TickO(n) == [k |-> "Tick", s |-> "", dt |-> n]
ApprO(u, t) == [k |-> "Appr", s |-> u, ex |-> -1] @@ t
InfoO(i) == [k |-> "SetInfo", s |-> "admin", co |-> "colla", info |-> i]
Info0 == [ok |-> TRUE, stt |-> -1, rr |-> "royal", rs |-> 5000000, ft |-> FALSE]
Upd(p) == [k |-> "UpdParams", s |-> "", p |-> p]
SetO(m) == [k |-> "SetMin", s |-> "", m |-> m]
UnsetO(ds) == [k |-> "UnsetMin", s |-> "", ds |-> ds]

CoreOps ==
  {CreateO("alice", T0, D, 100, 10, ""), CreateO("alice", T0, D, 100, 12, "david"), CreateO("bobby", T1, D, 5, 10, "alice"),
   CreateO("bobby", T0, D, 50, 10, "")}
  \cup {UpdResO(u, T0, a) : u \in {"alice", "bobby"}, a \in {101, 4}}
  \cup {CancelO(u, t) : u \in {"alice", "bobby"}, t \in {T0, T1}}
  \cup {BidO(u, T0, a) : u \in {"bobby", "carol"}, a \in {100, 101, 103} \cup (IF Deep THEN {102} ELSE {})}
  \cup {BidO("carol", T1, 5), BidO("alice", T0, 100)} \cup (IF Deep THEN {BidO("alice", T1, 6)} ELSE {})
  \cup {SettleO("carol", T0), SettleO("david", T1), EndO, ApprO("bobby", T0)}
  \cup {TickO(n) : n \in {400, 5100, 10000}}
PayOps ==
  {BidO("carol", T0, 100), BidO("bobby", T0, 103), BidO("carol", T1, 1), BidO("david", T1, 2), EndO, TickO(10000), TickO(4600),
   CreateO("carol", T0, D, 7, 10, "alice"), ApprO("carol", T0), BidO("alice", T0, 7)}
  \cup {SettleO(u, t) : u \in {"alice", "david"}, t \in {T0, T1}}
  \cup {InfoO(i) : i \in {Info0, [Info0 EXCEPT !.rr = "alice"], [Info0 EXCEPT !.rr = ""], [Info0 EXCEPT !.ok = FALSE],
                          [Info0 EXCEPT !.rs = 0], [Info0 EXCEPT !.rs = 99000000], [Info0 EXCEPT !.ft = TRUE], [Info0 EXCEPT !.stt = 100000000]}}
EndOps ==
  {BidO("carol", t, 10) : t \in {T0, T1, T10} \cup (IF Deep THEN {T2} ELSE {})} \cup {BidO("david", T0, 11)}
  \cup {EndO, TickO(600), TickO(9400), SettleO("david", T0), SettleO("david", T2), Upd([lim |-> 2]), Upd([lim |-> 0])}
  \cup (IF Deep THEN {TickO(1000)} ELSE {})
HaltOps ==
  {BidO("carol", t, 10) : t \in {T0, T1}} \cup {BidO("david", T0, 11)}
  \cup {BeginO, EndO, SettleO("david", T0), SettleO("carol", T1)}
  \cup {TickO(n) : n \in {10000, 30000} \cup (IF Deep THEN {3000} ELSE {})}
GovOps ==
  {CreateO("alice", T0, D, a, du, "") : a \in {4, 5, 100}, du \in {10, 3, 60}} \cup {CreateO("alice", T0, "uatom", 3, 10, "")}
  \cup {UpdResO("alice", T0, a) : a \in {5, 6, 200}} \cup {[UpdResO("alice", T0, 3) EXCEPT !.d = "uatom"], CancelO("alice", T0)}
  \cup {BidO("bobby", T0, a) : a \in {100, 106, 200}} \cup {EndO, SettleO("carol", T0), TickO(10000)}
  \cup {Upd(p) : p \in {[mi |-> 5000000], [mi |-> 0], [mi |-> One], [mn |-> 0, tf |-> 1], [mn |-> 3], [mn |-> 60], [ex |-> 0], [ex |-> 9],
                         [fb |-> "fairb"], [fb |-> "XX"], [fd |-> "uatom", fa |-> 7], [fd |-> D, fa |-> 0], [tf |-> 50000000, lim |-> 1],
                         [th |-> 50, bu |-> 1, po |-> 2]}}
  \cup {SetO(m) : m \in {<<[d |-> "uatom", a |-> 3]>>, <<[d |-> "uosmo", a |-> 1], [d |-> D, a |-> 6]>>, <<[d |-> D, a |-> 6]>>}}
  \cup {UnsetO(ds) : ds \in {<<D>>, <<"uatom">>, <<"uatom", D>>, <<D, D>>, <<"uosmo">>}}
All == SetToSeq(IF Mode \in {"core", "gov"} THEN CoreOps \cup GovOps \cup HaltOps ELSE PayOps \cup EndOps \cup HaltOps)
Universe == SetToSeq(
  IF Mode = "core" THEN CoreOps ELSE IF Mode = "pay" THEN PayOps ELSE IF Mode = "ends" THEN EndOps
  ELSE IF Mode = "halt" THEN HaltOps ELSE GovOps)
Horizon == CASE Mode = "core" -> 26000 [] Mode = "pay" -> 31000 [] Mode = "ends" -> 13000 [] Mode = "halt" -> 66000 [] OTHER -> 21000

Prelude ==
  IF Mode \in {"core", "gov"} THEN <<ApprO("alice", T0), ApprO("bobby", T1)>>
  ELSE IF Mode = "pay" THEN
    <<ApprO("alice", T0), ApprO("bobby", T1), CreateO("alice", T0, D, 100, 10, "david"), CreateO("bobby", T1, D, 5, 10, ""),
      Upd([tf |-> 2000000]), UnsetO(<<D>>), SetO(<<[d |-> D, a |-> 1]>>), UpdResO("bobby", T1, 1)>>
  ELSE IF Mode = "ends" THEN
    <<ApprO("alice", T0), ApprO("bobby", T1), ApprO("alice", T10), ApprO("bobby", T2), CreateO("alice", T0, D, 10, 10, ""),
      CreateO("bobby", T1, D, 10, 10, ""), CreateO("alice", T10, D, 10, 11, ""), CreateO("bobby", T2, D, 10, 10, "")>>
  ELSE <<ApprO("alice", T0), ApprO("bobby", T1), CreateO("alice", T0, D, 10, 10, ""), CreateO("bobby", T1, D, 10, 20, "")>>

Accts == {"auct", "admin", "faira", "fairb", "royal", "fundr", "burnt", "burnpool", "community", "findx", "alice", "bobby", "carol", "david"}
Toks == {"colla/0", "colla/1", "colla/10", "colla/2", "collb/1", "collb/7"}
S0 == [t |-> 0,
       bal |-> [x \in Accts |-> [d \in {D, "uatom"} |-> IF x \in {"alice", "bobby", "carol", "david"} THEN 100000000 ELSE 0]],
       own |-> [k \in Toks |-> IF k \in {"colla/0", "colla/10", "collb/1"} THEN "alice" ELSE "bobby"],
       apr |-> [k \in Toks |-> -2],
       opr |-> [k \in {c \o "/" \o u : c \in {"colla", "collb"}, u \in {"alice", "bobby", "carol", "david"}} |-> FALSE],
       auc |-> EmptyMap, pr |-> P0, mrp |-> (D :> 5), hm |-> Hm0,
       cinfo |-> ("colla" :> Info0) @@ ("collb" :> [Info0 EXCEPT !.rr = ""])]
RECURSIVE After(_, _)
After(s, ops) == IF ops = <<>> THEN s ELSE LET o == Step(s, Head(ops)) IN IF Assert(o.ok, Head(ops)) THEN After(o.st, Tail(ops)) ELSE s
Init ==
  /\ st = After(S0, Prelude)
  /\ hist = <<>>
  /\ obs = [k |-> "Init"]

OneStep(i) ==
  LET op == Universe[i]
      o == Step(st, op)
  IN /\ op.k # "End"
     /\ o.ok
     /\ st' = o.st
     /\ obs' = [k |-> op.k, s |-> op.s, ev |-> o.ev]
EndStep(i) ==
  LET op == Universe[i] IN
  /\ op.k = "End"
  /\ ~BlockedNow(st)
  /\ \E P \in SUBSET Due(st) :
       LET o == EndWith(st, P) IN
       /\ ValidP(st, P)
       /\ st' = o.st
       /\ obs' = [k |-> "End", s |-> "", ev |-> o.ev]
Next == \E i \in 1..Len(Universe) :
  /\ OneStep(i) \/ EndStep(i)
  /\ hist' = Append(hist, i)

View == [st EXCEPT !.bal = <<st.bal[RA], st.bal["burnt"]["ustars"] + st.bal["burnpool"]["ustars"] <= MaxOffers * 1000>>]
Depth == IF Deep THEN 100 ELSE CASE Mode = "core" -> 8 [] Mode = "ends" -> 9 [] Mode = "gov" -> 6 [] Mode = "pay" -> 9 [] OTHER -> 100
Bounded == st.t <= Horizon /\ Len(st.hm.win) <= 2 /\ Len(hist) < Depth
-----------------------------------------------------------------------------
InvEscrow == EscrowExact(st)
InvCustody == Custody(st)
InvKeys == KeysTrue(st)
InvClock == ClockShape(st)
InvBids == BidShape(st)
InvParams == ParamsValid(st)
Frozen(a) == st.cinfo[a.co].ft
(* no auction can get stuck: without a bid its seller can cancel it, running *)
(* it can be outbid by anyone else at the minimum and the bidder is repaid   *)
(* in full, ended it can be settled (or postponed) by anyone                 *)
InvFree == \A k \in DOMAIN st.auc : LET a == st.auc[k] id == [co |-> a.co, tk |-> a.tk] IN
  IF ~Started(a) THEN Frozen(a) \/ LET o == Step(st, CancelO(a.se, id)) IN o.ok /\ o.st.own[k] = a.se
  ELSE IF ~Ended(st, a) THEN
    LET b == IF a.se = "bobby" THEN "alice" ELSE "bobby"
        o == Step(st, Op("Bid", b, <<[d |-> a.d, a |-> MinBid(st, a)]>>) @@ id)
        prev == st.bal[a.hb][a.d]
    IN o.ok /\ o.st.bal[a.hb][a.d] = prev + a.ha - (IF b = a.hb THEN MinBid(st, a) ELSE 0) /\ o.st.auc[k].ha > a.ha
  ELSE (~Halted(st, a) /\ Stuck(st, a) # "") \/
    LET o == Step(st, SettleO("david", id)) IN o.ok /\ (Halted(st, a) => Has(o.st.auc, k)) /\ (~Halted(st, a) => o.st.own[k] = a.hb)

Changed(m, n) == {x \in DOMAIN m \cup DOMAIN n : ~Has(n, x) \/ ~Has(m, x) \/ n[x] # m[x]}
Terms(a) == <<a.co, a.tk, a.se, a.du, a.fr>>
ActConserved == Conserved(st, st')
(* who may change what about an auction, and when *)
ActAuctions == \A x \in Changed(st.auc, st'.auc) :
  IF ~Has(st.auc, x) THEN
    /\ obs'.k = "Create" /\ st'.auc[x].se = obs'.s /\ st.own[x] = obs'.s /\ ~Started(st'.auc[x]) /\ st'.auc[x].ha = 0
  ELSE LET a == st.auc[x] IN
    IF ~Has(st'.auc, x) THEN
      \/ obs'.k = "Cancel" /\ obs'.s = a.se /\ ~Started(a) /\ st'.own[x] = a.se
      \/ obs'.k \in {"Settle", "End"} /\ Ended(st, a) /\ ~Halted(st, a) /\ st'.own[x] = a.hb
    ELSE LET b == st'.auc[x] IN
      /\ Terms(a) = Terms(b)
      /\ \/ obs'.k = "UpdRes" /\ obs'.s = a.se /\ ~Started(a) /\ [b EXCEPT !.r = a.r, !.d = a.d] = a
         \/ /\ obs'.k = "Bid" /\ obs'.s = b.hb /\ b.hb # a.se /\ ~Ended(st, a) /\ b.r = a.r /\ b.d = a.d
            /\ b.ha > a.ha /\ b.ha >= a.r
            /\ IF Started(a) THEN /\ b.fb = a.fb /\ b.en >= a.en /\ b.ha - a.ha >= MulCeil(a.ha, st.pr.mi)
                                  /\ (b.en = a.en \/ b.en = st.t + st.pr.ex * 1000)
               ELSE b.fb = st.t /\ b.en = st.t + a.du * 1000
         \/ obs'.k \in {"Settle", "End"} /\ Ended(st, a) /\ Halted(st, a) /\ b.en > st.t /\ [b EXCEPT !.en = a.en] = a
(* a token in custody leaves it only when its auction ends *)
ActTokens == \A k \in DOMAIN st.own : st.own[k] # st'.own[k] /\ obs'.k \notin {"Mint", "Xfer", "Burn"} =>
  (st.own[k] = RA /\ Has(st.auc, k) /\ ~Has(st'.auc, k)) \/ (st'.own[k] = RA /\ ~Has(st.auc, k) /\ Has(st'.auc, k))
(* a block's end handles as many ended auctions as it may, earliest first *)
ActEnd == obs'.k = "End" =>
  /\ Cardinality(Due(st')) = Cardinality(Due(st)) - Min(st.pr.lim, Cardinality(Due(st)))
  /\ \A j \in Due(st) \ Due(st'), k \in Due(st') : EndSec(st, j) <= EndSec(st, k)
  /\ Changed(st.auc, st'.auc) = Due(st) \ Due(st')
(* a halt window is kept while an auction may end in it, and nothing but the block hooks touches windows *)
ActHalt ==
  /\ st.hm # st'.hm => obs'.k \in {"Begin", "End"}
  /\ \A k \in DOMAIN st'.auc : Has(st.auc, k) /\ Started(st.auc[k]) /\ st'.auc[k].en = st.auc[k].en /\ Halted(st, st.auc[k])
       => Halted(st', st'.auc[k])
ActGov == (st.pr # st'.pr \/ st.mrp # st'.mrp) =>
  /\ obs'.k \in {"UpdParams", "SetMin", "UnsetMin"}
  /\ st.auc = st'.auc /\ st.bal = st'.bal /\ st.own = st'.own
StepOk == [][ActConserved /\ ActAuctions /\ ActTokens /\ ActEnd /\ ActHalt /\ ActGov]_st

(* the situation a state is in, abstracted: the replayed states are chosen to *)
(* cover all triples of these                                                *)
YN(b) == IF b THEN "y" ELSE "n"
Cut(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
AucFeat(k) == IF ~Has(st.auc, k) THEN <<"-", "", 0, FALSE, 0, FALSE, 0>> ELSE
  LET a == st.auc[k] IN
  << IF ~Started(a) THEN "new" ELSE IF ~Ended(st, a) THEN "run" ELSE "end", a.se \o "/" \o a.hb, a.ha, a.fr # "",
     IF Started(a) THEN Cut(a.en - st.t, -5000, 5000) ELSE 0, Started(a) /\ Halted(st, a), a.r >>
Feat == AucFeat("colla/0") \o AucFeat("colla/1") \o (IF Mode = "ends" THEN AucFeat("colla/10") \o AucFeat("colla/2") ELSE <<>>)
  \o << st.own["colla/0"], ToString(st.pr), ToString(st.mrp), ToString(st.cinfo["colla"]), Len(st.hm.win), st.hm.prev >= 0, Cardinality(Due(st)), obs.k,
        st.t % 1000 >>
Emit == PrintT("ST " \o ToJson([h |-> hist, f |-> Feat]))
ASSUME PrintT("UNI " \o ToJson([root |-> [cfg |-> P0 @@ [m |-> Mins], scale |-> "1", unit |-> 1], pre |-> Prelude, uni |-> Universe, all |-> All]))
=============================================================================
