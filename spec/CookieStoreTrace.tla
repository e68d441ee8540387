-------------------------- MODULE CookieStoreTrace --------------------------
(* Validates histories of pyslet.http.cookie.CookieStore                    *)
EXTENDS TraceCheck, CookieStore

ToSet(s) == {s[i] : i \in 1..Len(s)}

CInit(cfg) ==
    {[jar |-> {}, n |-> 0,
      R |-> [depth |-> cfg.depth, pub |-> ToSet(cfg.pub),
             exc |-> ToSet(cfg.exc)]]}

Seen(c) == [id |-> c.id, made |-> c.made, used |-> c.used, path |-> c.path]

CStep(s, e) ==
    CASE e.k = "set" ->
            IF e.ok # Accept(s.R, e.u, e.a) THEN {}
            ELSE IF ~e.ok THEN {s}
            ELSE {[s EXCEPT !.jar = SetCookie(s.jar, s.R, e.u, e.a, e.id,
                                              e.now)]}
      [] e.k = "search" ->
            LET j == Touch(s.jar, e.u, e.now)
                f == {Seen(c) : c \in Found(j, e.u, e.now)}
            IN  IF /\ {e.r[i] : i \in 1..Len(e.r)} = f
                   /\ Len(e.r) = Cardinality(f)
                   /\ \A i \in 1..(Len(e.r) - 1) : Before(e.r[i], e.r[i + 1])
                THEN {[s EXCEPT !.jar = j]} ELSE {}
      [] e.k = "expire" -> {[s EXCEPT !.jar = Expire(s.jar, e.at)]}
      [] e.k = "end" -> {[s EXCEPT !.jar = EndSession(s.jar, e.at)]}
      [] e.k = "rule" -> {[s EXCEPT !.R.pub = @ \cup {e.rule}]}
      [] e.k = "domain" ->
            IF e.public = Public(s.R, e.d) /\ e.reg = Registered(s.R, e.d)
            THEN {s} ELSE {}
      [] e.k = "flags" -> IF e.given = e.secure THEN {s} ELSE {}
      [] OTHER -> {}

CWhy(s, e) ==
    IF e.k = "search" THEN <<"jar", s.jar>>
    ELSE IF e.k = "set" THEN <<"accept", Accept(s.R, e.u, e.a)>>
    ELSE <<"rules", s.R>>
=============================================================================
