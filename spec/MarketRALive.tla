---------------------------- MODULE MarketRALive ----------------------------
(* Liveness of the reserve auction's block hooks.  Time is relative: after   *)
(* every step the clock and all recorded times are shifted back to a fixed   *)
(* present, and what leaves the contract returns to where it came from, so   *)
(* that behaviours are infinite over finitely many states: the same three    *)
(* tokens are auctioned for ever.  Blocks are fair; users do as they like.   *)
(* With at least one auction per block and no halts from some point on,      *)
(* every auction that received a bid is settled, however the others are      *)
(* created, bid on and ended meanwhile.                                      *)
EXTENDS MarketRA
CONSTANTS Lim, Halts
VARIABLES st, calm

D == "ustars"
Now == 1000000
Toks == {"colla/0", "colla/1", "colla/2"}
Users == {"alice", "bobby", "carol", "david"}
Id(k) == CASE k = "colla/0" -> [co |-> "colla", tk |-> "0"] [] k = "colla/1" -> [co |-> "colla", tk |-> "1"]
           [] OTHER -> [co |-> "colla", tk |-> "2"]
Coin(a) == <<[d |-> D, a |-> a]>>
P0 == [fb |-> "faira", tf |-> 2000000, mi |-> 1000000, mn |-> 1, mx |-> 100, ex |-> 2, fd |-> D, fa |-> 0,
       lim |-> Lim, th |-> 30, bu |-> 4, po |-> 3]
Bal0 == [x \in {"auct", "faira", "burnt", "burnpool", "royal"} \cup Users |-> [d \in {D} |-> IF x \in Users THEN 1000 ELSE 100]]
Init ==
  /\ st = [t |-> Now, bal |-> Bal0, own |-> [k \in Toks |-> "alice"], apr |-> [k \in Toks |-> -1],
           opr |-> EmptyMap, auc |-> EmptyMap, pr |-> P0, mrp |-> (D :> 5), hm |-> [prev |-> Secs(Now), win |-> <<>>],
           cinfo |-> ("colla" :> [ok |-> TRUE, stt |-> -1, rr |-> "royal", rs |-> 5000000, ft |-> FALSE])]
  /\ calm = TRUE

Norm(s) == LET d == s.t - Now IN
  [s EXCEPT !.t = Now, !.bal = Bal0,
     !.own = [k \in Toks |-> IF s.own[k] = RA THEN RA ELSE "alice"], !.apr = [k \in Toks |-> -1],
     !.auc = [k \in DOMAIN s.auc |-> IF Started(s.auc[k]) THEN [s.auc[k] EXCEPT !.en = @ - d, !.fb = 0] ELSE s.auc[k]],
     !.hm = [prev |-> @.prev - Secs(d), win |-> [i \in 1..Len(@.win) |-> [s |-> @.win[i].s - Secs(d), e |-> @.win[i].e - Secs(d)]]]]

UserOps == UNION {
  {[k |-> "Create", s |-> "alice", f |-> <<>>, d |-> D, a |-> 10, du |-> 1, fr |-> ""] @@ Id(k),
   [k |-> "Cancel", s |-> "alice", f |-> <<>>] @@ Id(k),
   [k |-> "Bid", s |-> "bobby", f |-> Coin(10)] @@ Id(k),
   [k |-> "Bid", s |-> "carol", f |-> Coin(11)] @@ Id(k)} : k \in Toks}
Act == \E op \in UserOps :
  LET o == Step(st, op) IN o.ok /\ st' = Norm(o.st) /\ UNCHANGED calm
Block(secs) == \E P \in SUBSET Due(st) :
  /\ ValidP(st, P)
  /\ LET e == EndWith(st, P)
         t == Tick(e.st, [dt |-> secs * 1000])
         b == Begin(t.st, [k |-> "Begin"])
     IN st' = Norm(b.st)
  /\ calm' = (secs < st.pr.th)
Halt == Halts /\ Len(st.hm.win) < 2 /\ Block(31)
Next == Act \/ Block(1) \/ Halt
Spec == Init /\ [][Next]_<<st, calm>> /\ WF_<<st, calm>>(Block(1))

HasBid(k) == Has(st.auc, k) /\ Started(st.auc[k])
IsDue(k) == k \in Due(st)
Waiting == \A k \in DOMAIN st.auc : Started(st.auc[k]) => Secs(Now) - Secs(st.auc[k].en) <= 100
Calm == <>[]calm
(* every auction with a bid ends and is settled; every ended one leaves the queue (at least postponed) *)
Settles == Calm => \A k \in Toks : HasBid(k) ~> ~HasBid(k)
Handled == \A k \in Toks : IsDue(k) ~> ~IsDue(k)
(* halt windows are forgotten once nothing can need them: they do not pile up *)
Forgets == Calm => <>[](Len(st.hm.win) <= 1) \/ []<>(\E k \in Toks : HasBid(k))
=============================================================================
