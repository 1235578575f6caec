---------------------------- MODULE TraceBase ----------------------------
(* Reading logs recorded from the real contracts.  A log is a forest: each  *)
(* record is one executed operation with its outcome, the components of the *)
(* projected state it changed (d: new values, x: removed keys), the events  *)
(* and the 1-based indices of the records executed from its post-state.     *)
EXTENDS Common, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
Roots == {i \in 1..Len(Recs) : Recs[i].op.k = "Init"}

ToSet(s) == {s[i] : i \in 1..Len(s)}
(* the logged post-state of record r executed in state st; Maps: the        *)
(* components that are maps and are logged key by key                       *)
Applied(st, r, Maps) ==
  [c \in DOMAIN st |->
    IF c \in Maps THEN
      LET dd == IF c \in DOMAIN r.d THEN r.d[c] ELSE EmptyMap
          xx == IF c \in DOMAIN r.x THEN ToSet(r.x[c]) ELSE {}
      IN IF dd = EmptyMap /\ xx = {} THEN st[c]
         ELSE [k \in (DOMAIN st[c] \cup DOMAIN dd) \ xx |-> IF k \in DOMAIN dd THEN dd[k] ELSE st[c][k]]
    ELSE IF c \in DOMAIN r.d THEN r.d[c] ELSE st[c]]

(* keys on which two maps differ *)
DiffKeys(m, n) == {k \in DOMAIN m \cup DOMAIN n :
                     ~(k \in DOMAIN m /\ k \in DOMAIN n /\ m[k] = n[k])}
=============================================================================
