---------------------------- MODULE LockStoreTrace ----------------------------
(* Validates recorded executions of pyslet.blockstore.LockStore.  A state is  *)
(* the row, what each thread is doing, and since when the lock has been free  *)
EXTENDS TraceCheck, LockStore

LInit(cfg) ==
    {[T |-> cfg.T, row |-> NoRow, av |-> 0,
      th |-> [t \in {cfg.threads[i] : i \in 1..Len(cfg.threads)} |->
                [in |-> "", at |-> 0, to |-> 0, got |-> FALSE]]]}

(* the longest a contender may overlook a free lock *)
Patience(to) == to \div 5 + 4000

Max(a, b) == IF a > b THEN a ELSE b

(* how long the lock has been free without u trying to take it *)
Overlooked(s, u, now) ==
    IF s.th[u].in = "lock" /\ ~s.th[u].got /\ Free(s.row, s.T, now)
    THEN now - Max(s.th[u].at, s.av) ELSE 0

LStep(s, e) ==
    LET t == e.t  c == s.th[t] IN
    CASE e.k = "call" ->
            IF c.in # "" THEN {}
            ELSE {[s EXCEPT !.th[t] = [in |-> e.op, at |-> e.now,
                                       to |-> e.to, got |-> FALSE]]}
      [] e.k = "row" ->
            IF RowStep(s.row, e.row, t, c.in, s.T, e.now)
               /\ \A u \in DOMAIN s.th :
                    u # t => Overlooked(s, u, e.now) <= Patience(s.th[u].to)
            THEN {[s EXCEPT !.row = e.row,
                            !.av = FreeFrom(e.row, s.T, e.now),
                            !.th[t].got = (e.row # NoRow)]}
            ELSE {}
      [] e.k = "ret" ->
            IF \/ c.in = "lock" /\ e.res = "ok" /\ c.got
               \/ /\ c.in = "lock" /\ e.res = "LockError" /\ ~c.got
                  /\ e.now - c.at >= c.to
                  /\ e.now - c.at <= c.to + Patience(c.to)
                  /\ Overlooked(s, t, e.now) <= Patience(c.to)
               \/ c.in = "unlock" /\ e.res = "none" /\ s.row.o # t
            THEN {[s EXCEPT !.th[t] = [in |-> "", at |-> 0, to |-> 0,
                                       got |-> FALSE]]}
            ELSE {}
      [] OTHER -> {}

LWhy(s, e) == s
=============================================================================
