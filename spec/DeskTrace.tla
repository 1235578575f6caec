----------------------------- MODULE DeskTrace -----------------------------
(* Trace validation of the shared library.                                  *)
EXTENDS Desk, TraceBase

VARIABLES cur, st, viol

Maps == {"bal", "own", "opr", "cinfo", "reg"}
KindProps(k) == IF k \in {"Sell", "Send"} THEN {"D01"} ELSE IF k \in {"Give", "Gate", "Roy", "Addrs"} THEN {"D02"} ELSE {"ENV"}
IsLib(k) == k \in {"Sell", "Send", "Give", "Gate", "Roy", "Addrs"}

FindOk(r, o) ==
  \A l \in DOMAIN r.out.find : LET p == Find(o.out.pays, l) q == r.out.find[l] IN
    q.l = p.l /\ q.to = p.to /\ q.a = p.a /\ (p.l # "" => q.d = r.op.d)
OutOk(r, o) ==
  /\ r.out.keep
  /\ r.out.lib = "ok"
  /\ r.out.sent = o.out.sent
  /\ r.op.k = "Sell" =>
       /\ Len(r.out.pays) = Len(o.out.pays)
       /\ \A i \in 1..Len(o.out.pays) : r.out.pays[i] = o.out.pays[i] @@ [d |-> r.op.d]
       /\ FindOk(r, o)
  /\ r.op.k = "Roy" => r.out.found = o.out.found /\ r.out.used = o.out.used
  /\ r.op.k = "Addrs" => r.out.v = o.out.v /\ r.out.or = o.out.or
LibOk(r, o) == o.out.lib = "any" \/ "lib" \notin DOMAIN r.out \/ r.out.lib = o.out.lib

StateDiff(r, o, post) ==
  LET df(c) == DiffKeys(o.st[c], post[c]) IN
  (IF \A c \in Maps : df(c) = {} THEN {} ELSE KindProps(r.op.k))
  \cup (IF o.st.t = post.t THEN {} ELSE {"ENV"})
  \cup (IF IsLib(r.op.k) /\ ~OutOk(r, o) THEN KindProps(r.op.k) ELSE {})
InvViol(pre, post) == IF Conserved(pre, post) /\ NonNegative(post) THEN {} ELSE {"D01"}

Why(o, post) ==
  IF ~o.ok THEN [refused |-> o.why, out |-> o.out]
  ELSE [c \in {c \in DOMAIN post : o.st[c] # post[c]} \cup {"out"} |->
          IF c = "out" THEN o.out
          ELSE IF c \in Maps THEN [k \in DiffKeys(o.st[c], post[c]) |-> [spec |-> Get(o.st[c], k, "-"), code |-> Get(post[c], k, "-")]]
          ELSE [spec |-> o.st[c], code |-> post[c]]]
Report(i, v, r, o, post) ==
  IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToJson([rec |-> i, props |-> v, diff |-> Why(o, post)]))

Init == \E i \in Roots :
  /\ cur = i
  /\ st = Recs[i].d
  /\ viol = {}
Next == \E j \in 1..Len(Recs[cur].kids) :
  LET i == Recs[cur].kids[j]
      r == Recs[i]
      post == Applied(st, r, Maps)
      o == Step(st, r.op)
  IN /\ cur' = i
     /\ st' = post
     /\ viol' = (IF r.ok /\ o.ok THEN StateDiff(r, o, post)
                 ELSE IF r.ok THEN o.why
                 ELSE (IF o.ok THEN KindProps(r.op.k) ELSE IF IsLib(r.op.k) /\ ~LibOk(r, o) THEN KindProps(r.op.k) ELSE {})
                      \cup (IF r.d = EmptyMap /\ r.x = EmptyMap THEN {} ELSE {"ENV"}))
                \cup InvViol(st, post)
     /\ Report(i, viol', r, o, post)
TraceView == cur
=============================================================================
