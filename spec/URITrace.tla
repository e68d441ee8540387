------------------------------ MODULE URITrace ------------------------------
(* Every event is judged on its own:                                        *)
(*  parse   u, text, str (the code's text), c (the code's components)       *)
(*  resolve b, r, v (components of the result), text                        *)
(*  rel     u, b, err, v (the relative form), text, back (v resolved by the *)
(*          code)                                                           *)
(*  canon   u, v in the finer form of URICanon, what the code says of them  *)
EXTENDS TraceCheck, URI

UInit(cfg) == {0}

CharLower == [ABC |-> "abc", H |-> "h", X |-> "x", HTTP |-> "http",
              Http |-> "http", HTTPS |-> "https", FILE |-> "file", URN |-> "urn", A1 |-> "a1"]
Low(x) == IF x \in DOMAIN CharLower THEN CharLower[x] ELSE x

\* escaped and unescaped spellings of one character
Canon1 == "%7E" :> "~" @@ "%41" :> "A" @@ "%61" :> "a" @@ "%7e" :> "~" @@ "%2f" :> "%2F"
          @@ "%3a" :> "%3A" @@ "%e9" :> "%E9" @@ "%2E" :> "."
          @@ "%5f" :> "_"
Tok(t) == IF t \in DOMAIN Canon1 THEN Canon1[t] ELSE t

RECURSIVE Cat(_)
Cat(x) == IF x = <<>> THEN "" ELSE x[1] \o Cat(Tail(x))
Toks(x) == [i \in DOMAIN x |-> Tok(x[i])]

\* u: s, ui, h, po optional; abs, p: tokens; q, f: optional tokens
CText(u) ==
    Opt("", u.s, ":")
    \o (IF u.h = <<>> THEN "" ELSE
        "//" \o Opt("", u.ui, "@") \o u.h[1] \o Opt(":", u.po, ""))
    \o Cat(u.p)
    \o (IF u.q = <<>> THEN "" ELSE "?" \o Cat(u.q[1]))
    \o (IF u.f = <<>> THEN "" ELSE "#" \o Cat(u.f[1]))

Scheme(u) == IF u.s = <<>> THEN "" ELSE Low(u.s[1])
Default(s) == CASE s = "http" -> {"80", "080", ""}
                [] s = "https" -> {"443", "0443", ""}
                [] OTHER -> {""}
Server(u) == Scheme(u) \in {"http", "https", "file"}
Web(u) == Scheme(u) \in {"http", "https"}

CPort(u) == IF u.po = <<>> \/ u.po[1] \in Default(Scheme(u)) THEN <<>>
            ELSE IF u.po[1] = "080" THEN <<"80">>
            ELSE IF u.po[1] = "0443" THEN <<"443">> ELSE u.po

\* in a URN escapes are never removed; the namespace ignores case
Canon2 == "%2f" :> "%2F" @@ "%3a" :> "%3A" @@ "%e9" :> "%E9" @@ "%7e" :> "%7E"
          @@ "%5f" :> "%5F"
UrnTok(t) == IF t \in DOMAIN Canon2 THEN Canon2[t] ELSE t
Urn(u) == [u EXCEPT !.p = [i \in DOMAIN @ |->
                             IF i = 1 THEN Low(@[1]) ELSE UrnTok(@[i])],
                    !.s = <<"urn">>]

Canon(u) == IF Scheme(u) = "urn" THEN Urn(u) ELSE
    LET lowered == [u EXCEPT !.s = IF @ = <<>> THEN @ ELSE <<Low(@[1])>>]
        server == IF ~Server(u) \/ u.h = <<>> THEN lowered
                  ELSE [lowered EXCEPT !.h = <<Low(@[1])>>, !.po = CPort(u)]
    IN  IF ~Web(u) \/ u.h = <<>> THEN server
        ELSE [server EXCEPT
                !.p = IF @ = <<>> THEN <<"/">> ELSE Toks(@),
                !.q = IF @ = <<>> THEN @ ELSE <<Toks(@[1])>>]

\* an empty fragment may be kept or dropped
NoFrag(u) == IF u.f = <<<<>>>> THEN [u EXCEPT !.f = <<>>] ELSE u
CanonText(u) == {CText(Canon(u)), CText(NoFrag(Canon(u)))}

CanonOK(e) ==
    /\ e.text = CText(e.u)
    /\ e.str = e.text
    /\ e.cu \in CanonText(e.u)
    /\ e.ccu = e.cu
    /\ e.cv \in CanonText(e.v)
    /\ e.eq = (e.cu = e.cv) /\ e.match = e.eq
    /\ (CText(Canon(e.u)) = CText(Canon(e.v))) => e.eq
    /\ e.eq => e.hash
    /\ e.lt = 1                    \* exactly one of <, =, > and <=, >= agree
    \* the root of the protection space
    /\ e.root = (IF e.u.s = <<>> THEN "" ELSE
                 CText([Canon(e.u) EXCEPT !.p = <<>>, !.q = <<>>, !.f = <<>>]))
    /\ Web(e.u) /\ e.u.h # <<>> =>
        e.addr = <<e.u.h[1],
                   IF e.u.po = <<>> \/ e.u.po[1] = ""
                   THEN (IF Scheme(e.u) = "http" THEN "80" ELSE "443")
                   ELSE IF e.u.po[1] = "080" THEN "80"
                   ELSE IF e.u.po[1] = "0443" THEN "443" ELSE e.u.po[1]>>

ParseOK(e) == /\ e.text = Text(e.u) /\ e.str = e.text /\ e.c = e.u

ResolveOK(e) == /\ e.text = Text(e.v)
                /\ Expressible(Resolve(e.b, e.r)) => Resolves(e.b, e.r, e.v)

\* the relative form leads back, by the specification and by the code
RelOK(e) ==
    IF e.err
    THEN More(e.b, e.u) \/ TooHigh(e.b, e.u)
    ELSE /\ e.text = Text(e.v)
         /\ ~Empty(e.u) /\ Expressible(NormPath(e.u)) =>
              /\ SameResource(Resolve(e.b, e.v), e.u)
              /\ SameResource(e.back, e.u)

OK(e) == CASE e.n = "parse" -> ParseOK(e)
           [] e.n = "resolve" -> ResolveOK(e)
           [] e.n = "rel" -> RelOK(e)
           [] e.n = "canon" -> CanonOK(e)

UStep(st, e) == IF OK(e) THEN {0} ELSE {}
UWhy(st, e) == CASE e.n = "resolve" -> Text(Resolve(e.b, e.r))
                 [] e.n = "rel" -> Text(NormPath(e.u))
                 [] e.n = "canon" -> CText(Canon(e.u))
                 [] OTHER -> Text(e.u)
=============================================================================
