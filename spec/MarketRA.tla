------------------------------ MODULE MarketRA ------------------------------
(* The reserve auction: state, transitions and properties.                  *)
(*                                                                          *)
(* st is a record:                                                          *)
(*   t     block time (ms); the contract compares times in whole seconds    *)
(*   bal   account -> denom -> amount                                       *)
(*   own   token key "coll/id" -> owner ("" = does not exist)               *)
(*   apr   token key -> expiry of the contract's token approval (ms; -1     *)
(*         never expires, -2 none);  opr "coll/user" -> operator approval   *)
(*   auc   token key -> [co, tk, se, d, r, du, en, fr, hb, ha, fb]: seller, *)
(*         denom, reserve, duration (s), end (ms, -1 none), funds recipient *)
(*         ("" = seller), high bidder and bid, time of the first bid        *)
(*   pr    [fb, tf, mi, mn, mx, ex, fd, fa, lim, th, bu, po]: fair-burn     *)
(*         contract, trading fee and increment (10^-8), durations (s),      *)
(*         creation fee (denom, amount), auctions per block, halt           *)
(*         threshold, buffer and postponement (s)                           *)
(*   mrp   accepted denom -> minimum reserve                                *)
(*   hm    [prev, win]: last block (s, -1 none), recorded halt windows      *)
(*   cinfo collection -> [ok, stt, rr, rs, ft]                              *)
(* Step(st, op) gives the outcome of one transaction; the end of a block is *)
(* EndWith(st, P), P being the auctions it handles.                         *)
EXTENDS Common

RA == "auct"
One == 100000000
Key(co, tk) == co \o "/" \o tk
Acc(st, ev) == [ok |-> TRUE, st |-> st, ev |-> ev, why |-> {}]
E(ty, a) == [ty |-> ty, a |-> a]
CoinS(a, d) == ToString(a) \o d
Secs(ms) == ms \div 1000

OwnerOf(st, k) == Get(st.own, k, "")
Approved(st, k) == st.apr[k] = -1 \/ st.apr[k] > st.t
Tradable(st, co) == LET c == st.cinfo[co] IN ~(c.ok /\ c.stt > st.t)
MoveNft(st, k, to) == [st EXCEPT !.own[k] = to, !.apr[k] = -2]
CanPay(st, op) == \A i \in 1..Len(op.f) : Funds(st.bal, op.s, op.f[i].d) >= op.f[i].a
Nonpayable(op) == op.f = <<>>
(* exactly one positive coin of denom d *)
Paid(op, d) == IF Len(op.f) = 1 /\ op.f[1].d = d THEN op.f[1].a ELSE 0

-----------------------------------------------------------------------------
(* Money.  Fair-burn contracts burn their share of the native denom and     *)
(* send the rest, and everything of another denom, to the pool.             *)
BurnShare(fb) == IF fb = "faira" THEN 50000000 ELSE One
FairBurn(bal, from, fb, d, a) ==
  LET burn == IF d = "ustars" THEN MulCeil(a, BurnShare(fb)) ELSE 0
  IN Move(Move(bal, from, "burnt", d, burn), from, "burnpool", d, a - burn)

Payee(a) == IF a.fr = "" THEN a.se ELSE a.fr
(* the payments of settling auction a *)
Split(st, a) ==
  LET c == st.cinfo[a.co]
      fee == MulCeil(a.ha, st.pr.tf)
      roy == IF c.ok /\ c.rr # "" THEN MulCeil(a.ha, c.rs) ELSE 0
  IN [fee |-> fee, roy |-> roy, rest |-> a.ha - fee - roy]
(* why an auction that has ended cannot be settled ("" = it can).  The last *)
(* reason is a listed finding: the contract should settle these.            *)
Stuck(st, a) ==
  LET p == Split(st, a) IN
  IF st.cinfo[a.co].ft THEN "frozen"
  ELSE IF p.rest < 0 THEN "fees-exceed-bid"
  ELSE ""

-----------------------------------------------------------------------------
(* Creation *)
ReserveOk(st, op) == Has(st.mrp, op.d) /\ op.a >= st.mrp[op.d]
FeeOk(st, op) == IF st.pr.fa = 0 THEN op.f = <<>> ELSE Len(op.f) = 1 /\ op.f[1].d = st.pr.fd /\ op.f[1].a = st.pr.fa
Create(st, op) ==
  LET k == Key(op.co, op.tk)
      a == [co |-> op.co, tk |-> op.tk, se |-> op.s, d |-> op.d, r |-> op.a, du |-> op.du, en |-> -1, fr |-> op.fr,
            hb |-> "", ha |-> 0, fb |-> -1]
  IN IF BadAddr(op.fr) THEN Fail({"C09"})
     ELSE IF ~CanPay(st, op) THEN Fail({"C01", "C09"})
     ELSE IF OwnerOf(st, k) # op.s \/ op.s = RA THEN Fail({"C09", "C02"})
     ELSE IF ~Approved(st, k) THEN Fail({"C09"})
     ELSE IF Has(st.auc, k) THEN Fail({"C09"})
     ELSE IF ~Tradable(st, op.co) THEN Fail({"C09"})
     ELSE IF ~ReserveOk(st, op) THEN Fail({"C09"})
     ELSE IF op.du < st.pr.mn \/ op.du > st.pr.mx THEN Fail({"C09"})
     ELSE IF ~FeeOk(st, op) THEN Fail({"C09", "C01"})
     ELSE IF st.cinfo[op.co].ft THEN Fail({"C09", "C02"})
     ELSE Acc([MoveNft(st, k, RA) EXCEPT !.auc = Put(@, k, a),
                 !.bal = IF st.pr.fa = 0 THEN @ ELSE FairBurn(@, op.s, st.pr.fb, st.pr.fd, st.pr.fa)],
              <<E("create-auction", ("collection" :> op.co) @@ ("token_id" :> op.tk) @@ ("seller" :> op.s)
                  @@ ("reserve_price" :> CoinS(op.a, op.d)) @@ Opt("seller_funds_recipient", op.fr))>>)

UpdRes(st, op) ==
  LET k == Key(op.co, op.tk) IN
  IF ~Nonpayable(op) THEN Fail({"C01", "C08"})
  ELSE IF ~Has(st.auc, k) THEN Fail({"C08"})
  ELSE IF st.auc[k].se # op.s \/ st.auc[k].fb # -1 THEN Fail({"C08"})
  ELSE IF ~ReserveOk(st, op) THEN Fail({"C08"})
  ELSE Acc([st EXCEPT !.auc[k].d = op.d, !.auc[k].r = op.a],
           <<E("update-reserve-price", ("collection" :> op.co) @@ ("token_id" :> op.tk) @@ ("reserve_price" :> CoinS(op.a, op.d)))>>)

Cancel(st, op) ==
  LET k == Key(op.co, op.tk) IN
  IF ~Nonpayable(op) THEN Fail({"C01", "C08"})
  ELSE IF ~Has(st.auc, k) THEN Fail({"C08", "C02"})
  ELSE IF st.auc[k].se # op.s \/ st.auc[k].fb # -1 THEN Fail({"C08"})
  ELSE IF st.cinfo[op.co].ft THEN Fail({"C02"})
  ELSE Acc([MoveNft(st, k, st.auc[k].se) EXCEPT !.auc = Del(@, k)],
           <<E("cancel-auction", ("collection" :> op.co) @@ ("token_id" :> op.tk))>>)

-----------------------------------------------------------------------------
(* Bidding *)
Started(a) == a.fb # -1
Ended(st, a) == Started(a) /\ Secs(a.en) <= Secs(st.t)
MinBid(st, a) == IF Started(a) THEN MulCeil(a.ha, One + st.pr.mi) ELSE a.r
Bid(st, op) ==
  LET k == Key(op.co, op.tk)
      a == st.auc[k]
      x == Paid(op, a.d)
      first == ~Started(a)
      close == Secs(a.en) - Secs(st.t) < st.pr.ex
      en == IF first THEN st.t + a.du * 1000 ELSE IF close THEN st.t + st.pr.ex * 1000 ELSE a.en
      b1 == Move(st.bal, op.s, RA, a.d, x)
      b2 == IF first THEN b1 ELSE Move(b1, RA, a.hb, a.d, a.ha)
  IN IF ~Has(st.auc, k) THEN Fail({"C03", "C01"})
     ELSE IF ~CanPay(st, op) THEN Fail({"C01", "C03"})
     ELSE IF x = 0 THEN Fail({"C03", "C01"})
     ELSE IF op.s = a.se THEN Fail({"C03"})
     ELSE IF x < MinBid(st, a) THEN Fail({"C03"})
     ELSE IF Ended(st, a) THEN Fail({"C03", "C04"})
     ELSE Acc([st EXCEPT !.bal = b2,
                 !.auc[k] = [a EXCEPT !.hb = op.s, !.ha = x, !.en = en, !.fb = IF first THEN st.t ELSE @]],
              <<E("place-bid", ("collection" :> op.co) @@ ("token_id" :> op.tk) @@ ("seller" :> a.se) @@ ("bidder" :> op.s)
                  @@ ("bid_amount" :> CoinS(x, a.d)) @@ ("first_bid" :> IF first THEN "true" ELSE "false")
                  @@ ("auction_end_time" :> ToString(en))
                  @@ (IF first THEN EmptyMap ELSE ("previous_bidder" :> a.hb) @@ ("previous_bid_amount" :> CoinS(a.ha, a.d))))>>)

-----------------------------------------------------------------------------
(* Settlement *)
InWindow(st, s) == \E i \in 1..Len(st.hm.win) : s > st.hm.win[i].s /\ s < st.hm.win[i].e
Halted(st, a) == InWindow(st, Secs(a.en))
(* auction k, which has ended, is postponed or settled *)
Finish(st, k) ==
  LET a == st.auc[k]
      p == Split(st, a)
      en == st.t + st.pr.po * 1000
      b1 == FairBurn(st.bal, RA, st.pr.fb, a.d, p.fee)
      b2 == Move(b1, RA, st.cinfo[a.co].rr, a.d, p.roy)
      b3 == Move(b2, RA, Payee(a), a.d, p.rest)
      id == ("collection" :> a.co) @@ ("token_id" :> a.tk)
  IN IF Halted(st, a) THEN
       [st |-> [st EXCEPT !.auc[k].en = en], ev |-> E("postpone-auction", id @@ ("auction_end_time" :> ToString(en)))]
     ELSE
       [st |-> [MoveNft(st, k, a.hb) EXCEPT !.auc = Del(@, k), !.bal = b3],
        ev |-> E("settle-auction", id @@ ("seller" :> a.se) @@ ("bidder" :> a.hb) @@ ("bid_amount" :> ToString(a.ha)) @@ ("bid_denom" :> a.d))]
CanFinish(st, k) == Halted(st, st.auc[k]) \/ Stuck(st, st.auc[k]) = ""

Settle(st, op) ==
  LET k == Key(op.co, op.tk)
      f == Finish(st, k)
  IN IF ~Nonpayable(op) THEN Fail({"C01", "C05"})
     ELSE IF ~Has(st.auc, k) THEN Fail({"C05", "C02"})
     ELSE IF ~Ended(st, st.auc[k]) THEN Fail({"C05"})
     ELSE IF ~CanFinish(st, k) THEN Fail({"C05", "C02"})
     ELSE Acc(f.st, <<f.ev>>)

(* The end of a block *)
Due(st) == {k \in DOMAIN st.auc : Ended(st, st.auc[k])}
EndSec(st, k) == Secs(st.auc[k].en)
Blocked(st) == {k \in Due(st) : ~CanFinish(st, k)}
(* P are ended auctions, earliest first, up to the limit *)
ValidP(st, P) ==
  LET due == Due(st)
      n == Cardinality(P)
      free == due \ Blocked(st)
  IN /\ P \subseteq due
     /\ \A k \in P, j \in free \ P : EndSec(st, k) <= EndSec(st, j)
     /\ n <= st.pr.lim
     /\ n >= Min(st.pr.lim, Cardinality(due)) - Cardinality(Blocked(st))
(* an auction that cannot be finished may be among those the block handles *)
BlockedNow(st) == \E k \in Blocked(st) : Cardinality({j \in Due(st) : EndSec(st, j) < EndSec(st, k)}) < st.pr.lim
RECURSIVE FinishAll(_, _, _)
FinishAll(st, P, ev) ==
  IF P = {} THEN Acc(st, ev)
  ELSE LET k == CHOOSE k \in P : TRUE
           f == Finish(st, k)
       IN FinishAll(f.st, P \ {k}, Append(ev, f.ev))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
EndWith(st, P) ==
  LET ref == IF Due(st) = {} THEN Secs(st.t) ELSE MinOf({EndSec(st, k) : k \in Due(st)})
      win == st.hm.win
      hm2 == IF win # <<>> /\ ref > win[1].e THEN [st.hm EXCEPT !.win = Tail(@)] ELSE st.hm
      o == FinishAll(st, P, <<E("sudo-end-block", "action" :> "settle-auctions")>>)
  IN Acc([o.st EXCEPT !.hm = hm2], o.ev)

Begin(st, op) ==
  LET now == Secs(st.t)
      halt == st.hm.prev >= 0 /\ now - st.hm.prev >= st.pr.th
  IN Acc([st EXCEPT !.hm = [prev |-> now,
            win |-> IF halt THEN Append(st.hm.win, [s |-> st.hm.prev, e |-> now + st.pr.bu]) ELSE st.hm.win]],
         IF halt THEN <<E("halt-detected", EmptyMap)>> ELSE <<>>)

-----------------------------------------------------------------------------
(* Governance *)
ParamOk(p) ==
  /\ "fb" \in DOMAIN p => ~BadAddr(p.fb)
  /\ "mi" \in DOMAIN p => p.mi > 0 /\ p.mi < One
  /\ "mn" \in DOMAIN p => p.mn > 0
  /\ "ex" \in DOMAIN p => p.ex > 0
EvName(f) ==
  CASE f = "fb" -> "fair_burn" [] f = "tf" -> "trading_fee_percent" [] f = "mi" -> "min_bid_increment_percent"
    [] f = "mn" -> "min_duration" [] f = "ex" -> "extend_duration" [] f = "fa" -> "create_auction_fee"
    [] f = "lim" -> "max_auctions_to_settle_per_block" [] f = "th" -> "halt_duration_threshold"
    [] f = "bu" -> "halt_buffer_duration" [] f = "po" -> "halt_postpone_duration"
EvFields == {"fb", "tf", "mi", "mn", "ex", "fa", "lim", "th", "bu", "po"}
UpdParams(st, op) ==
  LET p == op.p
      fs == DOMAIN p \cap EvFields
      val(f) == IF f = "fb" THEN p.fb ELSE IF f = "fa" THEN CoinS(p.fa, p.fd) ELSE ToString(p[f])
  IN IF ~ParamOk(p) THEN Fail({"C11"})
     ELSE Acc([st EXCEPT !.pr = [f \in DOMAIN @ |-> IF f \in DOMAIN p THEN p[f] ELSE @[f]]],
              <<E("sudo-update-params", [n \in {EvName(f) : f \in fs} |-> val(CHOOSE f \in fs : EvName(f) = n)])>>)
RECURSIVE SetMins(_, _, _)
SetMins(st, m, ev) ==
  IF m = <<>> THEN Acc(st, ev)
  ELSE IF Has(st.mrp, Head(m).d) THEN Fail({"C11"})
  ELSE SetMins([st EXCEPT !.mrp = Put(@, Head(m).d, Head(m).a)], Tail(m),
               Append(ev, E("set-min-reserve-price", ("denom" :> Head(m).d) @@ ("amount" :> ToString(Head(m).a)))))
RECURSIVE UnsetMins(_, _, _)
UnsetMins(st, ds, ev) ==
  IF ds = <<>> THEN Acc(st, ev)
  ELSE IF ~Has(st.mrp, Head(ds)) THEN Fail({"C11"})
  ELSE UnsetMins([st EXCEPT !.mrp = Del(@, Head(ds))], Tail(ds), Append(ev, E("unset-min-reserve-price", "denom" :> Head(ds))))

ParamNames == {"fb", "tf", "mi", "mn", "mx", "ex", "fd", "fa", "lim", "th", "bu", "po"}
InstPr(c) == [f \in ParamNames |-> c[f]]
DistinctD(m) == Cardinality({m[i].d : i \in 1..Len(m)}) = Len(m)
InstMrp(c) == [d \in {c.m[i].d : i \in 1..Len(c.m)} |-> c.m[CHOOSE i \in 1..Len(c.m) : c.m[i].d = d].a]
InstOk(c) == ParamOk(c) /\ DistinctD(c.m)
Hm0 == [prev |-> -1, win |-> <<>>]
Inst(st, op) == IF InstOk(op.cfg) THEN Acc(st, <<>>) ELSE Fail({"C11"})
Migrate(st, op) == IF op.s # "admin" THEN Fail({"ENV"}) ELSE Acc(st, <<>>)

-----------------------------------------------------------------------------
(* Environment *)
Xfer(st, op) == LET k == Key(op.co, op.tk) IN
  IF OwnerOf(st, k) # op.s \/ st.cinfo[op.co].ft THEN Fail({"ENV"}) ELSE Acc(MoveNft(st, k, op.to), <<>>)
Burn(st, op) == LET k == Key(op.co, op.tk) IN
  IF OwnerOf(st, k) # op.s THEN Fail({"ENV"}) ELSE Acc(MoveNft(st, k, ""), <<>>)
Mint(st, op) == LET k == Key(op.co, op.tk) IN
  IF OwnerOf(st, k) # "" THEN Fail({"ENV"}) ELSE Acc([st EXCEPT !.own = Put(@, k, op.to), !.apr = Put(@, k, -2)], <<>>)
Appr(st, op, e) == LET k == Key(op.co, op.tk) IN
  IF OwnerOf(st, k) # op.s THEN Fail({"ENV"}) ELSE Acc([st EXCEPT !.apr[k] = e], <<>>)
ApprAll(st, op, v) == Acc([st EXCEPT !.opr[op.co \o "/" \o op.s] = v], <<>>)
SetInfo(st, op) == Acc([st EXCEPT !.cinfo[op.co] = op.info], <<>>)
Tick(st, op) == Acc([st EXCEPT !.t = @ + op.dt], <<>>)

Step(st, op) ==
  CASE op.k = "Create"   -> Create(st, op)
    [] op.k = "UpdRes"   -> UpdRes(st, op)
    [] op.k = "Cancel"   -> Cancel(st, op)
    [] op.k = "Bid"      -> Bid(st, op)
    [] op.k = "Settle"   -> Settle(st, op)
    [] op.k = "Begin"    -> Begin(st, op)
    [] op.k = "UpdParams" -> UpdParams(st, op)
    [] op.k = "SetMin"   -> SetMins(st, op.m, <<>>)
    [] op.k = "UnsetMin" -> UnsetMins(st, op.ds, <<>>)
    [] op.k = "Inst"     -> Inst(st, op)
    [] op.k = "Migrate"  -> Migrate(st, op)
    [] op.k = "Xfer"     -> Xfer(st, op)
    [] op.k = "Burn"     -> Burn(st, op)
    [] op.k = "Mint"     -> Mint(st, op)
    [] op.k = "Appr"     -> Appr(st, op, op.ex)
    [] op.k = "Unap"     -> Appr(st, op, -2)
    [] op.k = "ApprAll"  -> ApprAll(st, op, TRUE)
    [] op.k = "UnapAll"  -> ApprAll(st, op, FALSE)
    [] op.k = "SetInfo"  -> SetInfo(st, op)
    [] op.k = "Tick"     -> Tick(st, op)

-----------------------------------------------------------------------------
(* Invariants *)
Held(st, d) == SumOver([k \in DOMAIN st.auc |-> IF st.auc[k].d = d THEN st.auc[k].ha ELSE 0], DOMAIN st.auc)
EscrowExact(st) == \A d \in DOMAIN st.bal[RA] : st.bal[RA][d] = Held(st, d)
Total(bal, d) == SumOver([x \in DOMAIN bal |-> bal[x][d]], DOMAIN bal)
Conserved(st, st2) == \A d \in DOMAIN st.bal[RA] : Total(st.bal, d) = Total(st2.bal, d)
Custody(st) == \A k \in DOMAIN st.auc : OwnerOf(st, k) = RA
KeysTrue(st) == \A k \in DOMAIN st.auc : k = Key(st.auc[k].co, st.auc[k].tk)
ClockShape(st) == \A k \in DOMAIN st.auc : LET a == st.auc[k] IN
  /\ (a.fb = -1) = (a.en = -1)
  /\ a.fb # -1 => a.en >= a.fb + a.du * 1000
BidShape(st) == \A k \in DOMAIN st.auc : LET a == st.auc[k] IN
  /\ (a.fb = -1) = (a.hb = "")
  /\ IF a.fb = -1 THEN a.ha = 0 ELSE a.ha >= a.r /\ a.ha > 0 /\ a.hb # a.se
ParamsValid(st) == ParamOk(st.pr)
=============================================================================
