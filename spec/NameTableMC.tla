---------------------------- MODULE NameTableMC ----------------------------
EXTENDS NameTable, TLC, Json
CONSTANTS N, All
VARIABLES cfg, st

Text == {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"b">>, <<"b", "c">>}
Probe == Text \cup {x \o y : x \in Text, y \in Text}
Say(v) == PrintT("@" \o ToJson(v))
Key == ToString(<<cfg, st>>)

Cfgs == {[name |-> nm, scope |-> sc] :
            nm \in [1..N -> Text],
            sc \in IF All THEN [1..N -> BOOLEAN]
                   ELSE {[i \in 1..N |-> i < N]}}
Init == /\ cfg \in Cfgs
        /\ st = {}
        /\ Say([init |-> Key, cfg |-> cfg])
\* an object is never declared inside itself: scopes come first
Ops == {[n |-> n, p |-> p, o |-> o] : n \in {"declare", "undeclare"},
        p \in {x \in 0..N : x = 0 \/ cfg.scope[x]}, o \in 1..N}
Next == \E op \in Ops :
          LET r == Exec(cfg, st, op) IN
          /\ op.p < op.o
          /\ st' = r.st /\ cfg' = cfg
          /\ Say([a |-> Key, op |-> op, b |-> ToString(<<cfg, r.st>>)])
Inv == LET k == Keys(cfg, st, 0) IN
       /\ \A x, y \in k : x[1] = y[1] => x = y
       /\ \A key \in Probe : LET o == Lookup(cfg, st, 0, key) IN
             IF o = 0 THEN ~\E x \in k : x[1] = key ELSE <<key, o>> \in k
=============================================================================
