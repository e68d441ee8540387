--------------------------- MODULE NameTableTrace ---------------------------
(* Events of name tables (cfg.kind = "table"):                              *)
(*   [op, res, keys |-> for each scope (0 first) <<key, object>>, len |->   *)
(*    of each scope, probe |-> <<scope, key, object found or 0, is in>>]    *)
(* Event of a model: [res, facts |-> triples, names |-> pairs, len]         *)
EXTENDS TraceCheck, NameTable

XInit(c) == {[c |-> c, s |-> {}]}

Bijective(list, set) == /\ Range(list) = set
                        /\ Len(list) = Cardinality(set)

Table(c, s, e) ==
    LET r == Exec(c, s, e.op) IN
    IF /\ e.res = r.res
       /\ \A i \in DOMAIN e.keys :
            LET k == IF i = 1 \/ c.scope[i - 1] THEN Keys(c, r.st, i - 1)
                     ELSE {} IN
            Bijective(e.keys[i], k) /\ e.len[i] = Cardinality(k)
       /\ \A i \in DOMAIN e.probe :
            LET p == e.probe[i]  o == Lookup(c, r.st, p[1], p[2]) IN
            p[3] = o /\ p[4] = (o # 0)
    THEN {[c |-> c, s |-> r.st]} ELSE {}

XStep(st, e) ==
    IF st.c.kind = "table" THEN Table(st.c, st.s, e)
    ELSE IF /\ e.res = "ok"
            /\ Range(e.facts) = Facts(st.c.m)
            /\ Bijective(e.names, Names(st.c.m))
            /\ e.len = Cardinality(Names(st.c.m))
    THEN {st} ELSE {}
XWhy(st, e) ==
    IF st.c.kind = "table" THEN Exec(st.c, st.s, e.op)
    ELSE [missing |-> (Facts(st.c.m) \ Range(e.facts)) \cup
                      (Names(st.c.m) \ Range(e.names)),
          wrong |-> (Range(e.facts) \ Facts(st.c.m)) \cup
                    (Range(e.names) \ Names(st.c.m))]
=============================================================================
