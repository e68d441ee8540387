--------------------------- MODULE AuthSpaceTrace ---------------------------
(* Validates what servers see of a pyslet.http.client.Client                *)
EXTENDS TraceCheck, AuthSpace

AInit(cfg) == {[C |-> {}, r |-> {}, pc |-> "idle", auto |-> TRUE]}

AStep(s, e) ==
    CASE e.k = "add" ->
            {[s EXCEPT !.C = @ \cup {[id |-> e.id, space |-> e.space,
                                      realm |-> e.realm, dirs |-> {}]}]}
      [] e.k = "remove" ->
            {[s EXCEPT !.C = {c \in @ : c.id # e.id}]}
      [] e.k = "request" ->
            {[s EXCEPT !.r = {[url |-> e.u, method |-> e.method,
                               hdr |-> NONE, tried |-> NONE]},
                       !.pc = "send", !.auto = e.auto]}
      [] e.k = "sent" ->
            UNION {IF s.pc = "send" /\ e.u = r.url /\ e.method = r.method
                      /\ e.auth \in Carries(s.C, r)
                   THEN {[s EXCEPT !.r = {[r EXCEPT !.hdr = e.auth]},
                                   !.pc = "wait"]}
                   ELSE {} : r \in s.r}
      [] e.k = "reply" ->
            UNION {LET C == Learn(s.C, r, e.status)
                       more == Retries(C, r, e.chs)
                   IN  IF s.pc # "wait" THEN {}
                       ELSE IF Redirects(r, e.status, s.auto) /\ e.to # <<>>
                       THEN {[s EXCEPT !.C = C, !.r = {Moved(r, e.to[1])},
                                       !.pc = "send"]}
                       ELSE IF e.status = 401 /\ more # {}
                       THEN {[s EXCEPT !.C = C, !.r = {x}, !.pc = "send"] :
                                x \in more}
                       ELSE {[s EXCEPT !.C = C, !.pc = "idle"]}
                   : r \in s.r}
      [] e.k = "done" -> IF s.pc = "idle" THEN {s} ELSE {}
      [] OTHER -> {}

AWhy(s, e) == s
=============================================================================
