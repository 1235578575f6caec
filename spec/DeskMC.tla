------------------------------- MODULE DeskMC -------------------------------
(* Bounded model of the shared library, in the manner of MarketV2MC.         *)
EXTENDS Desk, Json, SequencesExt, IOUtils

CONSTANTS Mode, MaxOffers
Deep == MaxOffers > 1
VARIABLES st, hist, obs

D == "ustars"
Op(k, s, f) == [k |-> k, s |-> s, f |-> f]
Coin(d, a) == [d |-> d, a |-> a]
Fee(l, to, n) == [l |-> l, to |-> to, n |-> n]
T0 == [co |-> "colla", tk |-> "0"]   \* alice's
T1 == [co |-> "colla", tk |-> "1"]   \* bobby's
FeeLists ==
  { <<>>, <<Fee("maker", "carol", 0)>>, <<Fee("maker", "carol", 33333333), Fee("royalty", "royal", 5000000)>>,
    <<Fee("protocol", "findx", 1), Fee("x", "desk", 0), Fee("protocol", "royal", 1)>>,
    <<Fee("maker", "carol", 50000000), Fee("taker", "alice", 50000000)>>, <<Fee("seller", "carol", 50000000), Fee("taker", "alice", 50000001)>>,
    <<Fee("x", "carol", 100000000)>>, <<Fee("x", "carol", 100000001)>>, <<Fee("x", "carol", 0), Fee("x", "royal", 99999999)>> }
SellOps == {Op("Sell", "alice", <<Coin(D, a)>>) @@ [d |-> D, a |-> a, to |-> to, fees |-> fs] :
              a \in {1, 2, 3, 100, 101}, to \in {"bobby", "desk"}, fs \in FeeLists}
SendOps == {Op("Send", "alice", <<Coin("uatom", 7), Coin(D, 5)>>) @@ [cs |-> cs, to |-> "carol", chk |-> c, one |-> o] :
              cs \in {<<Coin(D, 5)>>, <<Coin(D, 0)>>, <<Coin("uatom", 7), Coin(D, 5)>>, <<Coin("uatom", 0), Coin(D, 5)>>, <<Coin("uatom", 7), Coin(D, 0)>>, <<>>},
              c \in BOOLEAN, o \in BOOLEAN}
GiveOps == {Op("Give", u, <<>>) @@ t @@ [to |-> v] : u \in {"alice", "bobby"}, v \in {"alice", "carol", "desk"}, t \in {T0, T1}}
GateOps == {Op("Gate", "alice", <<>>) @@ [co |-> c] : c \in {"colla", "collb"}}
RoyOps == {Op("Roy", "alice", <<>>) @@ [co |-> c, p |-> p] : c \in {"colla", "collb"}, p \in {"", "findx", "fundr", "carol"}}
AddrOps == {Op("Addrs", "alice", <<>>) @@ [v |-> v, a |-> a, to |-> "bobby"] :
              v \in {<<>>, <<"bobby", "alice">>, <<"carol", "alice", "carol">>, <<"alice", "alice">>, <<"alice", "XX">>, <<"royal", "desk", "findx", "desk", "bobby">>},
              a \in {"", "david"}}
Info0 == [ok |-> TRUE, stt |-> -1, rr |-> "royal", rs |-> 5000000, ft |-> FALSE]
InfoOps == {[k |-> "SetInfo", s |-> "admin", co |-> "colla", info |-> i] :
              i \in {Info0, [Info0 EXCEPT !.stt = 1000], [Info0 EXCEPT !.stt = 999, !.rr = ""], [Info0 EXCEPT !.ok = FALSE, !.stt = 2000],
                     [Info0 EXCEPT !.rr = "XX"], [Info0 EXCEPT !.ft = TRUE], [Info0 EXCEPT !.rs = 0]}}
RegOps == {[k |-> "SetReg", s |-> "admin", co |-> "colla", p |-> p, r |-> r, n |-> 7000000] : p \in {"", "findx", "fundr"}, r \in {"", "david"}}
EnvOps == {[k |-> "Tick", s |-> "", dt |-> d] : d \in {1, 999}} \cup {[k |-> k, s |-> "alice", co |-> "colla"] : k \in {"ApprAll", "UnapAll"}}
          \cup {[k |-> "Burn", s |-> "alice"] @@ T0}

All == SetToSeq(SellOps \cup SendOps \cup GiveOps \cup GateOps \cup RoyOps \cup AddrOps \cup InfoOps \cup RegOps \cup EnvOps)
Universe == SetToSeq(IF Mode = "pay" THEN SellOps \cup SendOps ELSE GiveOps \cup GateOps \cup RoyOps \cup AddrOps \cup InfoOps \cup RegOps \cup EnvOps)
Prelude == <<[k |-> "ApprAll", s |-> "alice", co |-> "colla"], [k |-> "ApprAll", s |-> "bobby", co |-> "colla"]>>

Accts == {"desk", "regis", "royal", "fundr", "findx", "alice", "bobby", "carol", "david"}
S0 == [t |-> 0,
       bal |-> [x \in Accts |-> [d \in {D, "uatom", "uosmo"} |-> IF x \in {"alice", "bobby", "carol", "david"} THEN 100000000 ELSE 0]],
       own |-> [k \in {"colla/0", "colla/1", "collb/1", "collb/7"} |-> IF k \in {"colla/0", "collb/1"} THEN "alice" ELSE "bobby"],
       opr |-> [k \in {c \o "/" \o u : c \in {"colla", "collb"}, u \in {"alice", "bobby", "carol", "david"}} |-> FALSE],
       cinfo |-> ("colla" :> Info0) @@ ("collb" :> [Info0 EXCEPT !.rr = ""]),
       reg |-> [c \in {"colla", "collb"} |-> [dr |-> "", ds |-> 0, pr |-> "", ps |-> 0, or |-> "", os |-> 0]]]
RECURSIVE After(_, _)
After(s, ops) == IF ops = <<>> THEN s ELSE LET o == Step(s, Head(ops)) IN IF Assert(o.ok, Head(ops)) THEN After(o.st, Tail(ops)) ELSE s
Init == st = After(S0, Prelude) /\ hist = <<>> /\ obs = [k |-> "Init"]
Next == \E i \in 1..Len(Universe) : LET op == Universe[i] o == Step(st, op) IN
  /\ o.ok
  /\ st' = o.st
  /\ hist' = Append(hist, i)
  /\ obs' = [k |-> op.k, s |-> op.s, op |-> op, out |-> o.out]
View == st
Bounded == st.t <= 1500 /\ Len(hist) < (IF Mode = "pay" THEN 2 ELSE IF Deep THEN 7 ELSE 4)
-----------------------------------------------------------------------------
InvMoney == NonNegative(st)
ActConserved == Conserved(st, st')
(* in a sale the payments add up to the price, in the order of the fees, the seller's last *)
ActSale == obs'.k = "Sell" =>
  /\ SumPays(obs'.out.pays) = obs'.op.a
  /\ \A i \in 1..Len(obs'.out.pays) : obs'.out.pays[i].a > 0
(* a token moves only by its owner's hand *)
ActOwner == \A k \in DOMAIN st.own : st.own[k] # st'.own[k] => obs'.s = st.own[k]
(* an existing royalty entry is never overwritten by a lookup; a lookup sets nothing a collection has not *)
ActRoy == obs'.k = "Roy" => \A c \in DOMAIN st.reg : st.reg[c] # st'.reg[c] =>
  /\ st.reg[c].dr = "" /\ st.cinfo[c].ok /\ st'.reg[c].dr = st.cinfo[c].rr
  /\ obs'.out.used = Entry(st'.reg[c].dr, st'.reg[c].ds)
StepOk == [][ActConserved /\ ActSale /\ ActOwner /\ ActRoy]_<<st, obs>>
(* the arithmetic, for many amounts and all pairs of shares *)
Shares == {0, 1, 9999, 1000000, 5000000, 33333333, 50000000, 66666667, 99999999, 100000000}
Amounts == (IF Deep THEN 1..3000 ELSE 1..150) \cup {999999, 1000000, 12345678}
ASSUME \A a \in Amounts, n1 \in Shares, n2 \in Shares :
  LET op == [a |-> a, to |-> "s", fees |-> <<Fee("p", "x", n1), Fee("q", "y", n2)>>]
      fp == FeePays(op.fees, a)
      p == Pays(op)
  IN /\ SumPays(fp) <= a => SumPays(p) = a
     /\ \A i \in 1..Len(fp) : LET m == MulDiv8(a, Due(op.fees)[i].n) IN
          fp[i].a = m.q + (IF m.r = 0 THEN 0 ELSE 1) /\ fp[i].a >= 1 /\ fp[i].a <= a
     /\ n1 + n2 <= 50000000 /\ a >= 4 => SumPays(fp) <= a

Feat == << ToString(st.reg["colla"]), ToString(st.reg["collb"]), ToString(st.cinfo["colla"]), st.own["colla/0"], st.own["colla/1"], ToString(st.opr), st.t, obs.k >>
Emit == PrintT("ST " \o ToJson([h |-> hist, f |-> Feat]))
ASSUME PrintT("UNI " \o ToJson([root |-> [cfg |-> EmptyMap, scale |-> "1", unit |-> 1], pre |-> Prelude, uni |-> Universe, all |-> All]))
=============================================================================
