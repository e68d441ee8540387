--------------------------- MODULE DispatchTrace ---------------------------
(* set    regs; res |-> pairs <<path, handler run (0: 404, -1: else)>>      *)
(* url    what a handler is told of a request for script \o info ? query    *)
(* form   a submitted form                                                  *)
(* cookie a cookie header                                                   *)
(* raise  the status when a handler raises                                  *)
(* static the static file found for a path                                  *)
(* Strings of the request are given in hexadecimal.                         *)
EXTENDS TraceCheck, Dispatch

DInit(cfg) == {0}

SetOK(e) == \A i \in DOMAIN e.res :
               e.res[i][2] = Best(e.regs, e.res[i][1])

\* values of one name, joined by commas (2c), in order
RECURSIVE JoinC(_)
JoinC(v) == IF v = <<>> THEN "" ELSE IF Len(v) = 1 THEN v[1]
            ELSE v[1] \o "2c" \o JoinC(Tail(v))
Values(ps, n, blanks) ==
    LET s == SelectSeq(ps, LAMBDA p : p[1] = n /\ (blanks \/ p[2] # ""))
    IN  [i \in DOMAIN s |-> s[i][2]]
Names(ps, blanks) == {ps[i][1] : i \in {j \in DOMAIN ps :
                                         blanks \/ ps[j][2] # ""}}
\* a set of <<name, value>>
Dict(ps, blanks) == {<<n, JoinC(Values(ps, n, blanks))>> :
                       n \in Names(ps, blanks)}
Range(s) == {s[i] : i \in DOMAIN s}

UrlOK(e) ==
    /\ e.url = e.root \o e.script \o e.info \o
               (IF e.qtext = "" THEN "" ELSE "3f" \o e.qtext)
    /\ e.app = e.root \o e.script \o (IF e.slash THEN "" ELSE "2f")
    \* a parameter without a value may be left out
    /\ Range(e.query) \in {Dict(e.params, TRUE), Dict(e.params, FALSE)}
    /\ e.again

FormOK(e) ==
    /\ \A i \in DOMAIN e.got :
        LET n == e.got[i][1]
            v == Values(e.params, n, TRUE)
        IN  /\ e.got[i][2] = JoinC(v)
            /\ e.got[i][3] = (IF v = <<>> THEN "none"
                              ELSE IF Len(v) = 1 /\ v[1] \in DOMAIN e.ints
                              THEN e.ints[v[1]] ELSE "bad")
    /\ e.content = e.expect

\* multiple values may come in any order, repeated ones once
CookieOK(e) ==
    /\ {e.got[i][1] : i \in DOMAIN e.got} = {e.params[i][1] : i \in DOMAIN e.params}
    /\ \A i \in DOMAIN e.got :
          {e.got[i][2][j] : j \in DOMAIN e.got[i][2]}
             = {e.params[k][2] : k \in {k \in DOMAIN e.params :
                                         e.params[k][1] = e.got[i][1]}}

Status == [ok |-> 200, BadRequest |-> 400, PageNotFound |-> 404,
           PageNotAuthorized |-> 403, MethodNotAllowed |-> 405,
           SessionError |-> 500, ValueError |-> 500]

\* a static file is found by a plain path of labels that exists; anything
\* else is not found.  files: the paths that exist, as label sequences
StaticOK(e) ==
    LET p == SelectSeq(e.path, LAMBDA s : s # "")
        good == e.path # <<>> /\ e.path[Len(e.path)] # ""
                /\ p \in Range(e.files)
    IN  e.got = IF good THEN <<200, p>> ELSE <<404, <<>>>>

OK(e) == CASE e.n = "set" -> SetOK(e)
           [] e.n = "url" -> UrlOK(e)
           [] e.n = "form" -> FormOK(e)
           [] e.n = "cookie" -> CookieOK(e)
           [] e.n = "raise" -> e.status = Status[e.what] /\ e.starts = 1
           [] e.n = "static" -> StaticOK(e)

DStep(st, e) == IF OK(e) THEN {0} ELSE {}
DWhy(st, e) ==
    CASE e.n = "set" ->
           LET bad == {i \in DOMAIN e.res :
                         e.res[i][2] # Best(e.regs, e.res[i][1])}
               i == CHOOSE i \in bad : TRUE
           IN  <<e.res[i][1], "got", e.res[i][2], "expected",
                 Best(e.regs, e.res[i][1])>>
      [] e.n = "url" -> e.root \o e.script \o e.info
      [] e.n = "raise" -> Status[e.what]
      [] OTHER -> "see event"
=============================================================================
