-------------------------------- MODULE Pool --------------------------------
(* What users of a pool of database connections see.                        *)
(*                                                                          *)
(* s.max     most connections that may exist                                *)
(* s.ts      DB-API thread safety: below 2 a connection is only used by the *)
(*           thread that opened it, or once that thread has terminated      *)
(* s.conn    [id -> [st, by, n, opener, last, late]]: st one of opening,    *)
(*           open, closing, closed; held n times by thread by ("": free);   *)
(*           last released at last; late: opened while the pool was closing *)
(* s.th      [name -> [in, at, to, fail, opening, n]]: what the thread is   *)
(*           doing (in: "", acq, clean, shut, or dead), since when          *)
(* s.shut    closing has begun                                              *)
(* s.doomed  held by the dead when the cleaner ran: must be gone            *)
EXTENDS Naturals, Integers, FiniteSets, Sequences, TLC

Quiet == [in |-> "", at |-> 0, to |-> -1, fail |-> FALSE, opening |-> FALSE,
          deads |-> {}]

Pool0(max, ts, threads) ==
    [max |-> max, ts |-> ts, conn |-> <<>>, shut |-> FALSE,
     doomed |-> {},
     th |-> [t \in threads |-> Quiet]]

Dead(s, t) == t # "" /\ s.th[t].in = "dead"
Exist(s) == {c \in DOMAIN s.conn : s.conn[c].st # "closed"}
Held(s, t) == {c \in DOMAIN s.conn : s.conn[c].by = t /\ s.conn[c].st = "open"}
Busy(s) == {c \in Exist(s) : s.conn[c].st = "opening" \/ s.conn[c].by # ""}

(* nobody waits for a connection while one could be had *)
Waiting(s) == {t \in DOMAIN s.th : s.th[t].in = "acq" /\ ~s.th[t].opening}
NoneIdle(s) == \/ Waiting(s) = {}
               \/ /\ ~s.shut
                  /\ s.doomed \cap Exist(s) = {}
                  /\ Cardinality(Busy(s)) >= s.max
                  /\ \A t \in Waiting(s) : Held(s, t) = {}

(* closing c is right for thread t in what it is doing at now *)
MayClose(s, t, c, now) ==
    LET k == s.conn[c]  h == s.th[t] IN
    /\ k.st = "open"
    /\ CASE h.in = "clean" -> Dead(s, k.by) \/
                              (k.by = "" /\ k.last <= h.at - h.to)
         [] h.in = "shut" -> \/ k.by = "" \/ k.by = t \/ Dead(s, k.by)
                             \/ now >= h.at + h.to
         [] h.in = "acq" -> k.by = "" \/ Dead(s, k.by)
         [] OTHER -> FALSE

(* the states after event e: none if it is not allowed *)
PoolStep(s, e) ==
    LET t == e.t  h == s.th[t] IN
    CASE e.k = "acq" ->
            {[s EXCEPT !.th[t] = [Quiet EXCEPT !.in = "acq", !.at = e.now,
                                               !.to = e.to]]}
      [] e.k = "open" ->              \* the driver is asked for a connection
            IF /\ h.in = "acq" /\ e.c \notin DOMAIN s.conn
               /\ Cardinality(Exist(s)) < s.max
               /\ Held(s, t) = {}
            THEN {[s EXCEPT !.conn = @ @@ (e.c :> [st |-> "opening", by |-> "",
                        n |-> 0, opener |-> t, last |-> e.now,
                        late |-> s.shut]),
                   !.th[t].opening = TRUE]}
            ELSE {}
      [] e.k = "opened" ->
            {[s EXCEPT !.conn[e.c].st = "open", !.conn[e.c].late = s.shut,
                       !.th[t].opening = FALSE]}
      [] e.k = "openfail" ->
            {[s EXCEPT !.conn[e.c].st = "closed", !.th[t].opening = FALSE,
                       !.th[t].fail = TRUE]}
      [] e.k = "got" ->
            IF /\ h.in = "acq" /\ ~h.fail /\ e.c \in DOMAIN s.conn
               /\ LET k == s.conn[e.c] IN
                  /\ k.st = "open" /\ k.by \in {"", t}
                  /\ Held(s, t) \subseteq {e.c}
                  /\ s.ts < 2 => k.opener = t \/ Dead(s, k.opener)
            THEN {[s EXCEPT !.th[t] = Quiet, !.conn[e.c].by = t,
                            !.conn[e.c].n = @ + 1]}
            ELSE {}
      [] e.k = "none" ->
            IF h.in = "acq" /\ (s.shut \/ (h.to >= 0 /\ e.now >= h.at + h.to))
            THEN {[s EXCEPT !.th[t] = Quiet]} ELSE {}
      [] e.k = "raise" ->
            IF h.in = "acq" /\ h.fail
            THEN {[s EXCEPT !.th[t] = Quiet]} ELSE {}
      [] e.k = "rel" ->               \* t gives c back (perhaps for another)
            LET k == s.conn[e.c] IN
            IF h.in = "" /\ k.n > 0
            THEN {[s EXCEPT !.conn[e.c].n = @ - 1,
                            !.conn[e.c].last = e.now,
                            !.conn[e.c].by = IF k.n = 1 THEN "" ELSE @]}
            ELSE {}
      [] e.k = "die" -> {[s EXCEPT !.th[t].in = "dead"]}
      [] e.k = "close" ->
            IF MayClose(s, t, e.c, e.now)
            THEN {[s EXCEPT !.conn[e.c].st = "closing"]} ELSE {}
      [] e.k = "closed" ->
            {[s EXCEPT !.conn[e.c].st = "closed"]}
      [] e.k = "clean" ->             \* to: how long a connection may idle
            {[s EXCEPT !.th[t] = [Quiet EXCEPT !.in = "clean", !.at = e.now,
                !.to = e.to, !.deads = {u \in DOMAIN s.th : Dead(s, u)}]]}
      [] e.k = "cleaned" ->
            \* what the dead held is no longer in the way
            \* (as soon as those who are closing it have finished)
            IF h.in = "clean"
            THEN {[s EXCEPT !.th[t] = Quiet, !.doomed = @ \cup
                     {c \in Exist(s) : s.conn[c].by \in h.deads}]}
            ELSE {}
      [] e.k = "shut" ->
            {[s EXCEPT !.shut = TRUE,
                       !.th[t] = [Quiet EXCEPT !.in = "shut", !.at = e.now,
                                               !.to = e.to]]}
      [] e.k = "shutdone" ->
            IF /\ h.in = "shut"
               /\ (\A u \in DOMAIN s.th : s.th[u].in # "clean") =>
                    \A c \in Exist(s) : s.conn[c].st = "opening"
                                        \/ s.conn[c].late
            THEN {[s EXCEPT !.th[t] = Quiet]} ELSE {}
      [] e.k = "tick" -> IF NoneIdle(s) THEN {s} ELSE {}
      [] e.k = "stats" ->
            \* nobody is doing anything: how many are held, and how many not
            LET held == {c \in Exist(s) : s.conn[c].by # ""} IN
            IF e.held = Cardinality(held)
               /\ e.free = Cardinality(Exist(s)) - e.held
            THEN {s} ELSE {}
      [] OTHER -> {}

(* what is expected when all collections are closed: everything is free *)
AllFree(s) == \A c \in Exist(s) : s.conn[c].by = ""
=============================================================================
