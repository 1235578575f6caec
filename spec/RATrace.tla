------------------------------ MODULE RATrace ------------------------------
(* Trace validation of the reserve auction: every recorded operation of the *)
(* real contract is compared with MarketRA from the same state; every       *)
(* invariant is evaluated in every recorded state.                          *)
EXTENDS MarketRA, TraceBase

VARIABLES cur, st, bad, viol

Maps == {"bal", "own", "apr", "opr", "auc", "mrp", "cinfo"}
GovK == {"UpdParams", "SetMin", "UnsetMin", "Inst", "Migrate"}
KindProps(k) ==
  IF k = "Create" THEN {"C09"}
  ELSE IF k \in {"UpdRes", "Cancel"} THEN {"C08"}
  ELSE IF k = "Bid" THEN {"C03"}
  ELSE IF k = "Settle" THEN {"C05"}
  ELSE IF k = "End" THEN {"C06"}
  ELSE IF k = "Begin" THEN {"C07"}
  ELSE IF k \in GovK THEN {"C11"}
  ELSE {"ENV"}
FinK == {"Settle", "End"}
IsSettle(evs) == \E i \in 1..Len(evs) : evs[i].ty = "settle-auction"
IsPostpone(evs) == \E i \in 1..Len(evs) : evs[i].ty = "postpone-auction"

(* events are compared as bags *)
EvSame(e, g) == e.ty = g.ty /\ DOMAIN e.a = DOMAIN g.a /\ \A k \in DOMAIN e.a : e.a[k] = g.a[k]
Count(e, s) == Cardinality({i \in 1..Len(s) : EvSame(e, s[i])})
EvsSame(es, gs) == Len(es) = Len(gs) /\ \A i \in 1..Len(es) : Count(es[i], es) = Count(es[i], gs)

(* the auctions the recorded end of a block handled *)
Handled(s, post) == {k \in Due(s) : ~Has(post.auc, k) \/ post.auc[k].en # s.auc[k].en}
Outcome(s, r, post) == IF r.op.k = "End" THEN EndWith(s, Handled(s, post)) ELSE Step(s, r.op)

(* the code refused what the specification accepts *)
Refused(s, r, o) ==
  LET k == Key(r.op.co, r.op.tk) IN
  IF r.op.k = "End" THEN (IF BlockedNow(s) THEN {"K:C06:unsettleable-auction"} ELSE {"C06"})
  ELSE IF r.op.k = "Settle" THEN
    {"C05"} \cup (IF Halted(s, s.auc[k]) THEN {"C07"} ELSE {})
  ELSE IF r.op.k = "Bid" THEN {"C03"} \cup (IF Has(s.auc, k) /\ Started(s.auc[k]) THEN {"C01"} ELSE {})
  ELSE IF r.op.k = "Cancel" THEN {"C08", "C02"}
  ELSE KindProps(r.op.k)
(* both refuse, the specification because the bid cannot pay its fees *)
KnownRefusal(s, r) ==
  IF r.op.k # "Settle" THEN {}
  ELSE LET k == Key(r.op.co, r.op.tk) IN
    IF Nonpayable(r.op) /\ Has(s.auc, k) /\ Ended(s, s.auc[k]) /\ ~CanFinish(s, k) /\ Stuck(s, s.auc[k]) = "fees-exceed-bid"
    THEN {"K:C05:fees-exceed-bid"} ELSE {}

Fixed == {"co", "tk", "se", "du", "fr"}
AucDiff(s, r, o, post) ==
  LET k == r.op.k
      kp == KindProps(k)
      one(x) ==
        IF Has(o.st.auc, x) /\ Has(post.auc, x) THEN
          LET a == o.st.auc[x]  b == post.auc[x] IN
          kp \cup (IF \E f \in Fixed : a[f] # b[f] THEN {"C08", "C09"} \cap ({"C08"} \cup kp) ELSE {})
             \cup (IF a.d # b.d \/ a.r # b.r THEN {"C08"} ELSE {})
             \cup (IF a.en # b.en \/ a.fb # b.fb THEN {"C04"} \cup (IF k \in FinK THEN {"C07"} ELSE {}) ELSE {})
             \cup (IF a.hb # b.hb \/ a.ha # b.ha THEN {"C03"} ELSE {})
        ELSE kp \cup (IF k \in FinK THEN {"C05"} ELSE {})
             \cup (IF k \in FinK /\ Has(s.auc, x) /\ Ended(s, s.auc[x]) /\ Halted(s, s.auc[x]) THEN {"C07"} ELSE {})
  IN UNION {one(x) : x \in DiffKeys(o.st.auc, post.auc)}

StateDiff(s, r, o, post) ==
  LET k == r.op.k
      kp == KindProps(k)
      fin == IsSettle(o.ev) \/ IsSettle(r.ev)
      halt == IsPostpone(o.ev) \/ IsPostpone(r.ev)
      df(c) == DiffKeys(o.st[c], post[c])
  IN (IF k = "End" /\ ~ValidP(s, Handled(s, post)) THEN {"C06"} ELSE {})
     \cup (IF df("bal") = {} THEN {} ELSE {"C01"} \cup kp \cup (IF fin THEN {"C05"} ELSE {}) \cup (IF halt THEN {"C07"} ELSE {}))
     \cup (IF df("own") = {} THEN {} ELSE {"C02"} \cup kp \cup (IF fin THEN {"C05"} ELSE {}) \cup (IF halt THEN {"C07"} ELSE {}))
     \cup AucDiff(s, r, o, post)
     \cup (IF o.st.hm = post.hm THEN {} ELSE {"C07"})
     \cup (IF o.st.pr = post.pr /\ df("mrp") = {} THEN {} ELSE {"C11"} \cup kp)
     \cup (IF k = "Inst" /\ ~(r.out.pr = InstPr(r.op.cfg) /\ Same(r.out.mrp, InstMrp(r.op.cfg)) /\ r.out.hm = Hm0) THEN {"C11"} ELSE {})
     \cup (IF k = "Migrate" /\ ~(r.out.kept /\ r.out.cur) THEN {"C11"} ELSE {})
     \cup (IF o.st.t # post.t \/ df("cinfo") # {} \/ df("opr") # {} THEN {"ENV"} ELSE {})
     \cup (IF df("apr") # {} /\ df("own") = {} THEN {"ENV"} ELSE {})
     \cup (IF EvsSame(o.ev, r.ev) THEN {} ELSE {"C12"})

(* a lower minimum is no reason for an alarm: the clock rule concerns the auction's own duration *)
InvViol(pre, post) ==
  (IF EscrowExact(post) /\ Conserved(pre, post) THEN {} ELSE {"C01"})
  \cup (IF Custody(post) THEN {} ELSE {"C02"})
  \cup (IF KeysTrue(post) THEN {} ELSE {"C09", "C10"})
  \cup (IF BidShape(post) THEN {} ELSE {"C03"})
  \cup (IF ClockShape(post) THEN {} ELSE {"C04"})
  \cup (IF ParamsValid(post) THEN {} ELSE {"C11"})

Unchanged(pre, post, r) ==
  IF r.d = EmptyMap /\ r.x = EmptyMap THEN {}
  ELSE (IF DiffKeys(pre.bal, post.bal) = {} THEN {} ELSE {"C01"}) \cup KindProps(r.op.k)

-----------------------------------------------------------------------------
(* Queries.  rk: position of every key (and of the cursor) in key order.    *)
(* "seller": auctions of us; "end": by end time from et; "mrp": denoms.     *)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
QueryOk(s, q) ==
  LET ends == q.q = "end"
      prim(k) == IF ends THEN Secs(s.auc[k].en) ELSE 0
      pos(k) == <<prim(k), q.rk[k]>>
      All == IF q.q = "mrp" THEN DOMAIN s.mrp
             ELSE IF q.q = "seller" THEN {k \in DOMAIN s.auc : s.auc[k].se = q.us}
             ELSE {k \in DOMAIN s.auc : Started(s.auc[k])}
      \* the by-end-time list always starts from (et, cursor), the cursor by default before every key
      bound == <<IF ends THEN q.et ELSE 0, q.ck>>
      F == {k \in All : (ends \/ q.ck >= 0) => IF q.desc THEN Less(pos(k), bound) ELSE Less(bound, pos(k))}
      lim == IF q.lim = -1 THEN 10 ELSE IF q.lim = -2 THEN 1000000 ELSE Min(q.lim, 100)
      R == ToSet(q.res)
      Before(x, y) == IF q.desc THEN Less(pos(y), pos(x)) ELSE Less(pos(x), pos(y))
  IN /\ R \subseteq F
     /\ Len(q.res) = Min(lim, Cardinality(F))
     /\ \A i \in 1..(Len(q.res) - 1) : Before(q.res[i], q.res[i+1])
     /\ q.res # <<>> => \A k \in F \ R : Before(q.res[Len(q.res)], k)
BadQ(s, r) == IF "q" \notin DOMAIN r THEN {} ELSE {i \in 1..Len(r.q) : ~QueryOk(s, r.q[i])}
QueryViol(s, r) == IF BadQ(s, r) = {} THEN {} ELSE {"C10"}

-----------------------------------------------------------------------------
Why(r, o, post) ==
  IF ~o.ok THEN [refused |-> o.why]
  ELSE [c \in {c \in DOMAIN post : o.st[c] # post[c]} |->
          IF c \in Maps THEN [k \in DiffKeys(o.st[c], post[c]) |->
              [spec |-> Get(o.st[c], k, "-"), code |-> Get(post[c], k, "-")]]
          ELSE [spec |-> o.st[c], code |-> post[c]]]
Report(i, v, r, o, post) ==
  IF v = {} THEN TRUE
  ELSE PrintT("VIOL " \o ToJson([rec |-> i, props |-> v, diff |-> Why(r, o, post), ev |-> IF o.ok THEN o.ev ELSE <<>>,
                                 queries |-> BadQ(post, r)]))

RootViol(r) ==
  IF ~r.out.ok THEN {"C11"}
  ELSE (IF r.d.pr = InstPr(r.out.cfg) /\ Same(r.d.mrp, InstMrp(r.out.cfg)) /\ r.d.hm = Hm0 THEN {} ELSE {"C11"})
       \cup InvViol(r.d, r.d)
Init == \E i \in Roots :
  /\ cur = i
  /\ st = Recs[i].d
  /\ bad = {}
  /\ viol = RootViol(Recs[i])
  /\ IF viol = {} THEN TRUE ELSE PrintT("VIOL " \o ToJson([rec |-> i, props |-> viol]))

Next == \E j \in 1..Len(Recs[cur].kids) :
  LET i == Recs[cur].kids[j]
      r == Recs[i]
      post == Applied(st, r, Maps)
      o == Outcome(st, r, post)
      inv == InvViol(st, post)
  IN /\ cur' = i
     /\ st' = post
     /\ bad' = inv
     /\ viol' = (IF r.ok /\ o.ok THEN StateDiff(st, r, o, post)
                 ELSE IF r.ok THEN o.why
                 ELSE (IF o.ok THEN Refused(st, r, o) ELSE KnownRefusal(st, r)) \cup Unchanged(st, post, r)
                      \cup (IF r.ev = <<>> THEN {} ELSE {"C12"}))
                \cup (inv \ bad)
                \cup QueryViol(post, r)
     /\ Report(i, viol', r, o, post)

TraceView == cur
=============================================================================
