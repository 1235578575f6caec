-------------------------------- MODULE Desk --------------------------------
(* The shared library: what one call of it does to the world.               *)
(*                                                                          *)
(* st is a record: t (ms), bal account -> denom -> amount, own token key -> *)
(* owner, opr "coll/user" -> the desk is an operator of user, cinfo         *)
(* collection -> [ok, stt, rr, rs, ft], reg collection -> registry entries  *)
(* [dr, ds] default, [pr, ps] of protocol findx, [or, os] of protocol fundr.*)
(* Step(st, op) also says what the library itself answers (out.lib) and the *)
(* values it computes.                                                      *)
EXTENDS Common

DESK == "desk"
Key(co, tk) == co \o "/" \o tk
(* lib: "ok", "err" or "any" (not promised); sent: transfers in order       *)
Yes(st, out) == [ok |-> TRUE, st |-> st, out |-> out, why |-> {}]
No(why, lib) == [ok |-> FALSE, out |-> [lib |-> lib], why |-> why]

CanPay(st, op) == \A i \in 1..Len(op.f) : Funds(st.bal, op.s, op.f[i].d) >= op.f[i].a
RECURSIVE MoveAll(_, _, _, _)
MoveAll(bal, from, to, f) == IF f = <<>> THEN bal ELSE MoveAll(Move(bal, from, to, Head(f).d, Head(f).a), from, to, Tail(f))

(* Sales *)
Due(fees) == SelectSeq(fees, LAMBDA x : x.n > 0)
FeePays(fees, a) == [i \in 1..Len(Due(fees)) |-> [l |-> Due(fees)[i].l, to |-> Due(fees)[i].to, a |-> MulCeil(a, Due(fees)[i].n)]]
Pays(op) ==
  LET fp == FeePays(op.fees, op.a)
      rest == op.a - SumPays(fp)
  IN fp \o (IF rest > 0 THEN <<[l |-> "seller", to |-> op.to, a |-> rest]>> ELSE <<>>)
Find(pays, l) ==
  LET S == {i \in 1..Len(pays) : pays[i].l = l}
  IN IF S = {} THEN [l |-> "", to |-> "", a |-> 0] ELSE pays[CHOOSE i \in S : \A j \in S : i <= j]
Sell(st, op) ==
  LET fp == FeePays(op.fees, op.a)
      pays == Pays(op)
      b1 == MoveAll(st.bal, op.s, DESK, op.f)
  IN IF ~CanPay(st, op) THEN No({"ENV"}, "any")
     ELSE IF SumPays(fp) > op.a THEN No({"D01"}, "err")
     ELSE Yes([st EXCEPT !.bal = PayAll(b1, DESK, op.d, pays)],
              [lib |-> "ok", pays |-> pays, sent |-> [i \in 1..Len(pays) |-> [to |-> pays[i].to, f |-> <<[d |-> op.d, a |-> pays[i].a]>>]]])

(* Transfers *)
Zero(cs) == \E i \in 1..Len(cs) : cs[i].a = 0
Send(st, op) ==
  IF ~CanPay(st, op) THEN No({"ENV"}, "any")
  ELSE IF op.chk /\ Zero(op.cs) THEN No({"D01"}, "err")
  ELSE IF Zero(op.cs) \/ op.cs = <<>> THEN No({"ENV"}, "ok")  \* the bank refuses
  ELSE Yes([st EXCEPT !.bal = MoveAll(MoveAll(@, op.s, DESK, op.f), DESK, op.to, op.cs)],
           [lib |-> "ok", sent |-> <<[to |-> op.to, f |-> op.cs]>>])

(* Gates *)
CanMove(st, co, k) == LET o == st.own[k] IN o = DESK \/ Get(st.opr, co \o "/" \o o, FALSE)
Give(st, op) ==
  LET k == Key(op.co, op.tk) IN
  IF st.own[k] = "" THEN No({"D02"}, "any")
  ELSE IF st.own[k] # op.s THEN No({"D02"}, "err")
  ELSE IF ~CanMove(st, op.co, k) \/ st.cinfo[op.co].ft THEN No({"D02"}, "ok")
  ELSE Yes([st EXCEPT !.own[k] = op.to], [lib |-> "ok", sent |-> <<>>])
Gate(st, op) ==
  LET c == st.cinfo[op.co] IN
  IF c.ok /\ c.stt > st.t THEN No({"D02"}, "err") ELSE Yes(st, [lib |-> "ok", sent |-> <<>>])

(* Royalties *)
Entry(r, s) == [r |-> r, s |-> s]
Found(st, op) ==
  LET e == st.reg[op.co]
      own == IF op.p = "findx" THEN Entry(e.pr, e.ps) ELSE IF op.p = "fundr" THEN Entry(e.or, e.os) ELSE Entry("", 0)
  IN IF own.r # "" THEN own ELSE IF e.dr # "" THEN Entry(e.dr, e.ds) ELSE Entry("", 0)
Roy(st, op) ==
  LET f == Found(st, op)
      c == st.cinfo[op.co]
      own == c.ok /\ c.rr # ""
  IN IF f.r # "" THEN Yes(st, [lib |-> "ok", sent |-> <<>>, found |-> f, used |-> f])
     ELSE IF own /\ BadAddr(c.rr) THEN No({"D02"}, "any")
     ELSE IF own THEN Yes([st EXCEPT !.reg[op.co].dr = c.rr, !.reg[op.co].ds = c.rs],
                          [lib |-> "ok", sent |-> <<>>, found |-> f, used |-> Entry(c.rr, c.rs)])
     ELSE Yes(st, [lib |-> "ok", sent |-> <<>>, found |-> f, used |-> f])

(* Address lists: the distinct addresses in order; TLC cannot compare       *)
(* strings, so the few addresses used are listed in their order.            *)
AddrOrder == <<"alice", "bobby", "carol", "david", "desk", "findx", "fundr", "royal">>
Addrs(st, op) ==
  LET S == {op.v[i] : i \in 1..Len(op.v)} IN
  IF \E x \in S : BadAddr(x) THEN No({"D02"}, "err")
  ELSE Yes(st, [lib |-> "ok", sent |-> <<>>, v |-> SelectSeq(AddrOrder, LAMBDA x : x \in S), or |-> IF op.a = "" THEN op.to ELSE op.a])

(* Environment *)
Step(st, op) ==
  CASE op.k = "Sell" -> Sell(st, op)
    [] op.k = "Send" -> Send(st, op)
    [] op.k = "Give" -> Give(st, op)
    [] op.k = "Gate" -> Gate(st, op)
    [] op.k = "Roy"  -> Roy(st, op)
    [] op.k = "Addrs" -> Addrs(st, op)
    [] op.k = "Tick" -> Yes([st EXCEPT !.t = @ + op.dt], EmptyMap)
    [] op.k = "SetInfo" -> Yes([st EXCEPT !.cinfo[op.co] = op.info], EmptyMap)
    [] op.k = "SetReg" -> Yes([st EXCEPT !.reg[op.co] =
          IF op.p = "" THEN [@ EXCEPT !.dr = op.r, !.ds = IF op.r = "" THEN 0 ELSE op.n]
          ELSE IF op.p = "findx" THEN [@ EXCEPT !.pr = op.r, !.ps = IF op.r = "" THEN 0 ELSE op.n]
          ELSE [@ EXCEPT !.or = op.r, !.os = IF op.r = "" THEN 0 ELSE op.n]], EmptyMap)
    [] op.k \in {"ApprAll", "UnapAll"} -> Yes([st EXCEPT !.opr[op.co \o "/" \o op.s] = op.k = "ApprAll"], EmptyMap)
    [] op.k = "Burn" -> IF st.own[Key(op.co, op.tk)] # op.s THEN No({"ENV"}, "any") ELSE Yes([st EXCEPT !.own[Key(op.co, op.tk)] = ""], EmptyMap)
    [] op.k = "Mint" -> IF st.own[Key(op.co, op.tk)] # "" THEN No({"ENV"}, "any") ELSE Yes([st EXCEPT !.own[Key(op.co, op.tk)] = op.to], EmptyMap)

-----------------------------------------------------------------------------
(* What the library is for: nothing stays behind in a sale, nothing is made *)
Total(bal, d) == SumOver([x \in DOMAIN bal |-> bal[x][d]], DOMAIN bal)
Denoms(st) == DOMAIN st.bal[DESK]
Conserved(st, st2) == \A d \in Denoms(st) : Total(st.bal, d) = Total(st2.bal, d)
NonNegative(st) == \A x \in DOMAIN st.bal, d \in Denoms(st) : st.bal[x][d] >= 0
=============================================================================
