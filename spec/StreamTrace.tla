----------------------------- MODULE StreamTrace -----------------------------
(* Validates recorded uses of a StreamStore.  The state maps stream ids to    *)
(* their bytes and ids of open streams to handles.                            *)
EXTENDS TraceCheck, StreamStore

None == [pos |-> -1, r |-> FALSE, w |-> FALSE, app |-> FALSE]

SInit(cfg) == {[d |-> [i \in 1..cfg.streams |-> <<>>],
                h |-> [i \in 1..cfg.streams |-> None],
                live |-> {}]}

SStep(s, e) ==
    CASE e.k = "new" -> {[s EXCEPT !.live = @ \cup {e.i}]}
      [] e.k = "open" ->
            LET o == Opened(e.m, s.d[e.i]) IN
            {[s EXCEPT !.h[e.i] = o.h, !.d[e.i] = o.d]}
      [] e.k = "op" ->
            {[s EXCEPT !.h[e.i] = o.h, !.d[e.i] = o.d] :
                o \in {x \in Effects(s.h[e.i], s.d[e.i], e.op) :
                          x.res = e.res}}
      [] e.k = "close" -> IF e.res = "ok" THEN {[s EXCEPT !.h[e.i] = None]}
                          ELSE {}
      [] e.k = "delete" -> IF e.res = "ok"
                           THEN {[s EXCEPT !.live = @ \ {e.i}]} ELSE {}
      [] e.k = "look" ->
            \* a stream that is not being written, read back
            IF /\ e.data = s.d[e.i] /\ e.size = Len(e.data)
               /\ e.md5 \in {"null", "match"}
            THEN {s} ELSE {}
      [] e.k = "blocks" ->
            \* references without data, and data without references
            IF e.missing = <<>> /\ e.orphans = <<>> THEN {s} ELSE {}
      [] e.k = "gone" -> IF e.i \notin s.live /\ e.res = "KeyError"
                         THEN {s} ELSE {}
      [] OTHER -> {}

SWhy(s, e) == s
=============================================================================
