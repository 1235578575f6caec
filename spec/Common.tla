------------------------------ MODULE Common ------------------------------
(* Arithmetic and map helpers shared by the marketplace specifications.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* a * n / 10^8 with a, n < 2^31, exact, by base-10^4 digits (TLC integers  *)
(* are 32 bit): quotient and remainder.                                     *)
MulDiv8(a, n) ==
  LET B == 10000
      a0 == a % B   a1 == (a \div B) % B   a2 == a \div (B * B)
      n0 == n % B   n1 == (n \div B) % B   n2 == n \div (B * B)
      c0 == a0 * n0
      k1 == a0 * n1 + a1 * n0 + c0 \div B
      k2 == a0 * n2 + a1 * n1 + a2 * n0 + k1 \div B
  IN [q |-> k2 + (a1 * n2 + a2 * n1) * B + a2 * n2 * B * B,
      r |-> (k1 % B) * B + (c0 % B)]
MulFloor(a, n) == MulDiv8(a, n).q
MulCeil(a, n)  == LET m == MulDiv8(a, n) IN m.q + (IF m.r > 0 THEN 1 ELSE 0)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

EmptyMap == [x \in {} |-> 0]
Has(m, k) == k \in DOMAIN m
Get(m, k, dflt) == IF k \in DOMAIN m THEN m[k] ELSE dflt
Put(m, k, v) == (k :> v) @@ m
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Same(m, n) == /\ DOMAIN m = DOMAIN n
              /\ \A k \in DOMAIN m : m[k] = n[k]

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

(* Balances: account -> denom -> amount.                                    *)
HasAcct(bal, x, d) == x \in DOMAIN bal /\ d \in DOMAIN bal[x]
Move(bal, from, to, d, a) ==
  LET b1 == IF HasAcct(bal, from, d) THEN [bal EXCEPT ![from][d] = @ - a] ELSE bal
  IN IF a = 0 THEN bal
     ELSE IF HasAcct(b1, to, d) THEN [b1 EXCEPT ![to][d] = @ + a] ELSE b1
Funds(bal, x, d) == IF HasAcct(bal, x, d) THEN bal[x][d] ELSE 0

RECURSIVE PayAll(_, _, _, _)
PayAll(bal, from, d, pays) ==
  IF pays = <<>> THEN bal
  ELSE PayAll(Move(bal, from, Head(pays).to, d, Head(pays).a), from, d, Tail(pays))

RECURSIVE SumPays(_)
SumPays(pays) == IF pays = <<>> THEN 0 ELSE Head(pays).a + SumPays(Tail(pays))

(* Attached funds: a sequence of [d, a].                                    *)
RECURSIVE FundOf(_, _)
FundOf(f, d) == IF f = <<>> THEN 0
                ELSE (IF Head(f).d = d THEN Head(f).a ELSE 0) + FundOf(Tail(f), d)

(* Optional event attribute *)
Opt(k, v) == IF v = "" THEN EmptyMap ELSE (k :> v)

Fail(why) == [ok |-> FALSE, why |-> why]
Good(st, hid, ev) == [ok |-> TRUE, st |-> st, hid |-> hid, ev |-> ev, why |-> {}]
BadAddr(x) == x = "XX"
=============================================================================
