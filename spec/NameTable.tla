----------------------------- MODULE NameTable -----------------------------
(***************************************************************************)
(* Scopes of names, and references in an entity data model.                 *)
(*                                                                          *)
(* Part 1.  Objects 1..n have a fixed name (a sequence of words: "a.b" is   *)
(* <<"a", "b">>) and some are scopes; 0 is the outermost scope.             *)
(* st: a set of pairs <<scope, object>>: what is declared where.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Prefix(x, y) == Len(x) < Len(y) /\ SubSeq(y, 1, Len(x)) = x

In(st, p) == {d[2] : d \in {e \in st : e[1] = p}}

Declare(cfg, st, p, o) ==
    IF \E x \in In(st, p) : cfg.name[x] = cfg.name[o]
    THEN [st |-> st, res |-> "duplicate"]
    ELSE IF \E x \in In(st, p) : \/ Prefix(cfg.name[x], cfg.name[o])
                                 \/ Prefix(cfg.name[o], cfg.name[x])
    THEN [st |-> st, res |-> "incompatible"]
    ELSE [st |-> st \cup {<<p, o>>}, res |-> "ok"]

Undeclare(cfg, st, p, o) ==
    IF <<p, o>> \in st THEN [st |-> st \ {<<p, o>>}, res |-> "ok"]
    ELSE [st |-> st, res |-> "missing"]

Exec(cfg, st, op) == IF op.n = "declare" THEN Declare(cfg, st, op.p, op.o)
                     ELSE Undeclare(cfg, st, op.p, op.o)

RECURSIVE Keys(_, _, _)
\* all <<key, object>> of a scope, those of scopes inside it included
Keys(cfg, st, p) ==
    UNION {{<<cfg.name[o], o>>} \cup
           (IF cfg.scope[o]
            THEN {<<cfg.name[o] \o k[1], k[2]>> : k \in Keys(cfg, st, o)}
            ELSE {}) : o \in In(st, p)}

RECURSIVE Lookup(_, _, _, _)
\* 0: not found.  Written as a search, to be compared with Keys
Lookup(cfg, st, p, key) ==
    LET here == {o \in In(st, p) : cfg.name[o] = key}
        via == {o \in In(st, p) : cfg.scope[o] /\ Prefix(cfg.name[o], key)}
    IN  IF here # {} THEN CHOOSE o \in here : TRUE
        ELSE IF via = {} THEN 0
        ELSE LET o == CHOOSE o \in via : TRUE IN
             Lookup(cfg, st, o, SubSeq(key, Len(cfg.name[o]) + 1, Len(key)))

---------------------------------------------------------------------------
(* Part 2.  A model m:                                                      *)
(*   ctype   [fq, props |-> Seq([n, t])]            complex types           *)
(*   etype   [fq, props, key |-> Seq(name),                                 *)
(*            navs |-> Seq([n, rel, from, to])]                             *)
(*   assoc   [fq, ends |-> <<[role, type, mult], [...]>>]                   *)
(*   cont    [fq, sets |-> Seq([n, type]), asets |-> Seq([n, assoc,         *)
(*            ends |-> <<[role or "", set], [...]>>]),                      *)
(*            funcs |-> Seq([n, ret, set, pars |-> Seq(name)])]             *)
(*   schema  Seq(name)                                                      *)
(* Facts(m): what every reference resolves to, as triples of strings.       *)
Range(s) == {s[i] : i \in DOMAIN s}
None == "-"

Simple == {"Edm.Int32", "Edm.String", "Edm.Boolean", "Edm.DateTime"}
ETypes(m) == {t.fq : t \in Range(m.etype)}
CTypes(m) == {t.fq : t \in Range(m.ctype)}
EType(m, fq) == CHOOSE t \in Range(m.etype) : t.fq = fq
HasAssoc(m, fq) == \E a \in Range(m.assoc) : a.fq = fq
Assoc(m, fq) == CHOOSE a \in Range(m.assoc) : a.fq = fq
End(a, role) == CHOOSE e \in Range(a.ends) : e.role = role
EndId(a, role) == a.fq \o "/" \o role

Navs(m) == UNION {{[v |-> v, t |-> t.fq] : v \in Range(t.navs)} :
                  t \in Range(m.etype)}
NavId(x) == x.t \o "/" \o x.v.n
Ambiguous(m, x) == \E y \in Navs(m) : /\ y # x /\ y.t = x.t
                                      /\ y.v.rel = x.v.rel
                                      /\ y.v.from = x.v.from
Back(m, x) == {y \in Navs(m) : /\ y.v.rel = x.v.rel /\ y.v.from = x.v.to
                               /\ y.t = End(Assoc(m, x.v.rel), x.v.to).type
                               /\ ~Ambiguous(m, y)}

PropFacts(m, t) == {<<"type", t.fq \o "/" \o p.n,
                      IF p.t \in Simple \cup CTypes(m) THEN p.t ELSE None>> :
                    p \in Range(t.props)}

NavFacts(m, x) ==
    LET i == NavId(x)  a == Assoc(m, x.v.rel) IN
    IF ~HasAssoc(m, x.v.rel)
    THEN {<<k, i, None>> : k \in {"assoc", "from", "to", "back"}}
         \cup {<<"ambiguous", i, "no">>}
    ELSE {<<"assoc", i, a.fq>>, <<"from", i, EndId(a, x.v.from)>>,
          <<"to", i, EndId(a, x.v.to)>>,
          <<"ambiguous", i, IF Ambiguous(m, x) THEN "yes" ELSE "no">>,
          <<"back", i, IF Ambiguous(m, x) \/ Back(m, x) = {} THEN None
                       ELSE NavId(CHOOSE y \in Back(m, x) : TRUE)>>}

EndFacts(m, a) ==
    UNION {LET e == a.ends[i]  o == a.ends[3 - i] IN
           {<<"end", EndId(a, e.role),
              IF e.type \in ETypes(m) THEN e.type ELSE None>>,
            <<"other", EndId(a, e.role),
              IF e.type \in ETypes(m) THEN EndId(a, o.role) ELSE None>>} :
           i \in 1..2}

SetType(c, s) == (CHOOSE x \in Range(c.sets) : x.n = s).type
\* the role of end i of an association set
Role(m, c, s, i) ==
    LET a == Assoc(m, s.assoc)  e == s.ends[i]  o == s.ends[3 - i] IN
    IF e.role # "" THEN e.role
    ELSE IF o.role # ""
    THEN (CHOOSE x \in Range(a.ends) : x.role # o.role).role
    ELSE (CHOOSE x \in Range(a.ends) : x.type = SetType(c, e.set)).role
AEnd(m, c, s, i) == c.fq \o "/" \o s.n \o "#" \o Role(m, c, s, i)

SetFacts(m, c) ==
    UNION {{<<"settype", c.fq \o "/" \o s.n, s.type>>} \cup
           {<<"key", c.fq \o "/" \o s.n, EType(m, s.type).key[i]>> :
            i \in DOMAIN EType(m, s.type).key} : s \in Range(c.sets)}

ASetFacts(m, c) ==
    UNION {LET a == Assoc(m, s.assoc) IN
           {<<"asetassoc", c.fq \o "/" \o s.n, s.assoc>>} \cup
           UNION {{<<"asetset", AEnd(m, c, s, i), c.fq \o "/" \o s.ends[i].set>>,
                   <<"asetend", AEnd(m, c, s, i), EndId(a, Role(m, c, s, i))>>,
                   <<"asetother", AEnd(m, c, s, i), AEnd(m, c, s, 3 - i)>>} :
                  i \in 1..2} : s \in Range(c.asets)}

\* navigation from the sets of a container
Links(m, c, s, x) ==
    \* pairs <<association set, end>> that carry x from set s
    {p \in Range(c.asets) \X (1..2) :
        /\ p[1].assoc = x.v.rel /\ p[1].ends[p[2]].set = s.n
        /\ Role(m, c, p[1], p[2]) = x.v.from}
Target(m, c, s, x) ==
    IF Ambiguous(m, x)
    THEN (CHOOSE t \in Range(c.sets) :
             t.type = End(Assoc(m, x.v.rel), x.v.to).type).n
    ELSE LET p == CHOOSE p \in Links(m, c, s, x) : TRUE
         IN  p[1].ends[3 - p[2]].set
NavigationFacts(m, c) ==
    UNION {UNION {LET i == c.fq \o "/" \o s.n \o "/" \o x.v.n
                      a == Assoc(m, x.v.rel) IN
                  {<<"target", i, c.fq \o "/" \o Target(m, c, s, x)>>,
                   <<"mult", i, End(a, x.v.from).mult \o ","
                                \o End(a, x.v.to).mult>>} :
                  x \in {y \in Navs(m) : y.t = s.type}} :
           s \in Range(c.sets)}

FuncFacts(m, c) ==
    UNION {{<<"ret", c.fq \o "/" \o f.n,
              IF f.ret \in Simple \cup CTypes(m) \cup ETypes(m)
              THEN f.ret ELSE None>>,
            <<"retset", c.fq \o "/" \o f.n,
              IF f.set = "" THEN None ELSE c.fq \o "/" \o f.set>>} :
           f \in Range(c.funcs)}

Facts(m) ==
    UNION {PropFacts(m, t) : t \in Range(m.etype) \cup Range(m.ctype)}
    \cup UNION {NavFacts(m, x) : x \in Navs(m)}
    \cup UNION {EndFacts(m, a) : a \in Range(m.assoc)}
    \cup UNION {SetFacts(m, c) \cup ASetFacts(m, c) \cup NavigationFacts(m, c)
                \cup FuncFacts(m, c) : c \in Range(m.cont)}

\* <<qualified name, object>> of everything in the model
Names(m) ==
    {<<s, "schema " \o s>> : s \in Range(m.schema)}
    \cup UNION {{<<t.fq, t.fq>>} \cup
                {<<t.fq \o "." \o p.n, t.fq \o "/" \o p.n>> :
                 p \in Range(t.props)} : t \in Range(m.etype) \cup Range(m.ctype)}
    \cup {<<x.t \o "." \o x.v.n, NavId(x)>> : x \in Navs(m)}
    \cup UNION {{<<a.fq, a.fq>>} \cup
                {<<a.fq \o "." \o e.role, EndId(a, e.role)>> :
                 e \in Range(a.ends)} : a \in Range(m.assoc)}
    \cup UNION {{<<c.fq, c.fq>>} \cup
                {<<c.fq \o "." \o s.n, c.fq \o "/" \o s.n>> :
                 s \in Range(c.sets) \cup Range(c.asets) \cup Range(c.funcs)}
                \cup UNION {{<<c.fq \o "." \o f.n \o "." \o p,
                               c.fq \o "/" \o f.n \o "/" \o p>> :
                             p \in Range(f.pars)} : f \in Range(c.funcs)} :
                c \in Range(m.cont)}
=============================================================================
