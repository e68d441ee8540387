----------------------------- MODULE ODataTrace -----------------------------
(* Validates recorded executions of an entity container *)
EXTENDS TraceCheck, ODataStore

OInit(cfg) == {Init0(cfg.sch, cfg.be)}

\* results with collections compare as sets of distinct elements
SameResult(res, logged) ==
    /\ res.r = logged.r
    /\ CASE res.r = "ok" -> TRUE
         [] res.r = "keys" -> /\ res.v = Range(logged.v)
                              /\ Len(logged.v) = Cardinality(res.v)
         [] OTHER -> res.v = logged.v

DumpOk(s, e) ==
    /\ \A i \in 1..Len(e.ents) :
         LET d == e.ents[i] IN
         /\ d.len = Cardinality(Keys(s, d.set))
         /\ Len(d.ents) = d.len
         /\ \A k \in Keys(s, d.set) :
               \E j \in 1..Len(d.ents) : d.ents[j].key = k /\ d.ents[j].rec = s.ents[d.set][k]
    /\ \A i \in 1..Len(e.links) :
         LET l == e.links[i] IN
         /\ Range(l.to) = Targets(s, Nav(s, l.set, l.nav), l.key)
         /\ Len(l.to) = Cardinality(Range(l.to))
    /\ \A set \in DOMAIN s.sch.sets : \A n \in DOMAIN s.sch.navs[set] \ {"_"} :
         \A k \in Keys(s, set) :
            Targets(s, Nav(s, set, n), k) # {} =>
               \E i \in 1..Len(e.links) : /\ e.links[i].set = set
                                          /\ e.links[i].nav = n
                                          /\ e.links[i].key = k

OStep(s, e) ==
    IF e.k = "broken" THEN {}
    ELSE IF e.k = "dump" THEN IF DumpOk(s, e) THEN {s} ELSE {}
    ELSE IF e.k = "fault"
    THEN \* an operation one of whose statements failed: it is reported and
         \* nothing has happened, or (after trying again) all of it has;
         \* either way the database is not locked.  (The harness puts the
         \* database back.)
         IF /\ e.free = 1
            /\ IF e.res.r = "err" THEN DumpOk(s, e.dump)
               ELSE \E x \in Exec(s, e.op) : SameResult(x.res, e.res) /\ DumpOk(x.s, e.dump)
         THEN {s} ELSE {}
    ELSE {o.s : o \in {x \in Exec(s, e.op) :
                            SameResult(x.res, e.res) /\ MultiplicityHolds(x.s)}}

OWhy(s, e) ==
    IF e.k = "broken" THEN "the container cannot be read" ELSE IF e.k = "dump" THEN [ents |-> {<<x, DOMAIN s.ents[x]>> : x \in DOMAIN s.ents},
                          links |-> {<<x, s.links[x]>> : x \in DOMAIN s.links}]
    ELSE {o.res : o \in Exec(s, e.op)}
=============================================================================
