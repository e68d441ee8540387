---------------------------- MODULE CookieStore ----------------------------
(* The cookie store of an HTTP client (RFC 6265) with a list of public      *)
(* suffixes.  Hosts and domains are sequences of labels, the top level      *)
(* first (an IP address is a single label); paths are sequences of the      *)
(* segments after each "/", so that "/" is <<"">> and "/a/" is <<"a","">>.  *)
EXTENDS Integers, Sequences, FiniteSets

NEVER == 0 - 1

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(a, b) == IF a < b THEN a ELSE b
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Front(s) == SubSeq(s, 1, Len(s) - 1)

-----------------------------------------------------------------------------
(* Public suffixes.  R.depth: so many labels are public without a rule;     *)
(* R.pub, R.exc: rules and exceptions, whose last label may be "*"          *)

Covers(r, d) ==
    /\ Len(r) <= Len(d)
    /\ \A i \in 1..Len(r) : r[i] = "*" \/ r[i] = d[i]

SuffixLen(R, d) ==
    LET e == {Len(r) - 1 : r \in {x \in R.exc : Covers(x, d)}}
    IN  IF e # {} THEN Max(e)
        ELSE Max({Min(R.depth, Len(d))} \cup
                 {Len(r) : r \in {x \in R.pub : Covers(x, d)}})

Public(R, d) == SuffixLen(R, d) >= Len(d)
(* the registered domain, <<>> if there is none *)
Registered(R, d) ==
    IF Public(R, d) THEN <<>> ELSE SubSeq(d, 1, SuffixLen(R, d) + 1)

-----------------------------------------------------------------------------
(* Paths *)

RECURSIVE PathLen(_)
PathLen(p) == IF p = <<>> THEN 0 ELSE 1 + Len(p[1]) + PathLen(Tail(p))

PathMatch(c, r) ==
    \/ c = r
    \/ c[Len(c)] = "" /\ Len(r) >= Len(c) /\ Prefix(Front(c), r)
    \/ Len(r) > Len(c) /\ Prefix(c, r)

DefaultPath(r) == IF Len(r) <= 1 THEN <<"">> ELSE Front(r)

-----------------------------------------------------------------------------
(* Cookies: [id, name, dom, hostonly, path, secure, exp, made, used]        *)

Live(c, now) == c.exp = NEVER \/ now <= c.exp

Accept(R, u, a) ==
    \/ a.dom = <<>>
    \/ Prefix(a.dom, u.host) /\ (Public(R, a.dom) => a.dom = u.host)

Expiry(a, now) ==
    IF a.age # <<>>
    THEN IF a.age[1] <= 0 THEN 0 ELSE now + a.age[1]
    ELSE a.exp

Same(c, d) == c.name = d.name /\ c.dom = d.dom /\ c.path = d.path

MakeCookie(R, u, a, id, now) ==
    LET d == IF a.dom = <<>> THEN u.host ELSE a.dom IN
    [id |-> id, name |-> a.name, dom |-> d,
     hostonly |-> a.dom = <<>> \/ Public(R, d),
     path |-> IF a.path = <<>> THEN DefaultPath(u.path) ELSE a.path,
     secure |-> a.secure, exp |-> Expiry(a, now), made |-> now,
     used |-> now]

Evict(jar, now) == {c \in jar : Live(c, now)}

(* the jar after a Set-Cookie header which is accepted *)
SetCookie(jar, R, u, a, id, now) ==
    LET live == Evict(jar, now)
        c == MakeCookie(R, u, a, id, now)
        old == {d \in live : Same(c, d)}
        k == IF old = {} THEN c
             ELSE [c EXCEPT !.made = (CHOOSE d \in old : TRUE).made]
    IN  Evict((live \ old) \cup {k}, now)

Matches(c, u, now) ==
    /\ Live(c, now)
    /\ Prefix(c.dom, u.host)
    /\ c.hostonly => c.dom = u.host
    /\ PathMatch(c.path, u.path)
    /\ c.secure => u.secure

Found(jar, u, now) == {c \in jar : Matches(c, u, now)}

(* the order in which they are listed *)
Before(c, d) ==
    \/ PathLen(c.path) > PathLen(d.path)
    \/ PathLen(c.path) = PathLen(d.path) /\ c.made <= d.made

Listed(jar, u, now, r) ==
    /\ {r[i] : i \in 1..Len(r)} = Found(jar, u, now)
    /\ Len(r) = Cardinality(Found(jar, u, now))
    /\ \A i \in 1..(Len(r) - 1) : Before(r[i], r[i + 1])

Touch(jar, u, now) ==
    {IF Matches(c, u, now) THEN [c EXCEPT !.used = now] ELSE c :
        c \in Evict(jar, now)}

Expire(jar, at) == Evict(jar, at)
EndSession(jar, at) == {c \in Evict(jar, at) : c.exp # NEVER}
=============================================================================
