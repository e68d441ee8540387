---------------------------- MODULE CharSetTrace ----------------------------
(* Event: [op, obs |-> for each class <<test, test_slow, str as regular     *)
(* expression, format_re>>, eq |-> pairs of equal classes (c < d)]          *)
EXTENDS TraceCheck, CharSet

CInit(cfg) == {[n |-> cfg.n, s |-> [c \in 1..cfg.k |-> {}]]}

Obs(st) == [c \in DOMAIN st.s |->
              LET v == Enc(st.s[c], st.n) IN <<v, v, v, v>>]
Eq(st) == {<<c, d>> \in (DOMAIN st.s) \X (DOMAIN st.s) : c < d /\ st.s[c] = st.s[d]}

CStep(st, e) ==
    LET nx == [st EXCEPT !.s = Exec(st.n, st.s, e.op)] IN
    IF /\ e.obs = Obs(nx)
       /\ {e.eq[i] : i \in DOMAIN e.eq} = Eq(nx)
    THEN {nx} ELSE {}
CWhy(st, e) == Obs([st EXCEPT !.s = Exec(st.n, st.s, e.op)])
=============================================================================
