----------------------------- MODULE ODataStore -----------------------------
(***************************************************************************)
(* An OData entity container: entity sets are maps from keys to records,    *)
(* association sets are sets of links between them, subject to the          *)
(* multiplicities of the metadata.  The metadata (sch) is part of the       *)
(* state so that one specification serves every model:                      *)
(*                                                                          *)
(*   sch.sets[S][p]    [def |-> default value, top |-> top-level property,  *)
(*                      tok |-> "" or the sort of concurrency token it is]  *)
(*   sch.assocs[X]     [a, ma, b, mb]: the sets at each end and how many of *)
(*                     that end one entity of the other may be linked to    *)
(*                     ("1", "?" or "*")                                    *)
(*   sch.navs[S][n]    [as, rev, to]: a navigation property                 *)
(*                                                                          *)
(* Keys and values are integer codes, 0 is null.  be names the back end:    *)
(* only "mem", which promises no transactions, may keep part of a failed    *)
(* compound operation.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Init0(sch, be) ==
    [sch |-> sch, be |-> be,
     ents |-> [x \in DOMAIN sch.sets |-> <<>>],
     links |-> [x \in DOMAIN sch.assocs |-> {}],
     media |-> [x \in DOMAIN sch.sets |-> <<>>]]

Range(q) == {q[i] : i \in 1..Len(q)}
\* a finite map from keys; <<>> is the empty one
Keys(s, set) == DOMAIN s.ents[set]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Restrict(f, D) == [x \in D |-> f[x]]

Ok(s) == [ok |-> TRUE, s |-> s, e |-> ""]
Err(s, e) == [ok |-> FALSE, s |-> s, e |-> e]

Nav(s, set, n) == s.sch.navs[set][n]
\* how many targets an entity may have / sources a target may have
ToM(s, nv) == LET x == s.sch.assocs[nv.as] IN IF nv.rev THEN x.ma ELSE x.mb
FromM(s, nv) == LET x == s.sch.assocs[nv.as] IN IF nv.rev THEN x.mb ELSE x.ma
Pair(nv, k, t) == IF nv.rev THEN <<t, k>> ELSE <<k, t>>
Targets(s, nv, k) == IF nv.rev THEN {p[1] : p \in {q \in s.links[nv.as] : q[2] = k}}
                     ELSE {p[2] : p \in {q \in s.links[nv.as] : q[1] = k}}
Sources(s, nv, t) == IF nv.rev THEN {p[2] : p \in {q \in s.links[nv.as] : q[1] = t}}
                     ELSE {p[1] : p \in {q \in s.links[nv.as] : q[2] = t}}

(***************************************************************************)
(* Links                                                                    *)
(***************************************************************************)
Link(s, nv, k, t) ==
    LET p == Pair(nv, k, t) IN
    IF p \in s.links[nv.as] THEN {Ok(s), Err(s, "constraint")}
    ELSE IF ToM(s, nv) # "*" /\ Targets(s, nv, k) # {} THEN {Err(s, "constraint")}
    ELSE IF FromM(s, nv) # "*" /\ Sources(s, nv, t) # {} THEN {Err(s, "constraint")}
    ELSE {Ok([s EXCEPT !.links[nv.as] = @ \cup {p}])}

\* t becomes the only target of k
Replace(s, nv, k, t) ==
    LET T == Targets(s, nv, k) IN
    IF T = {t} THEN {Ok(s), Err(s, "constraint")}
    ELSE IF T # {} /\ FromM(s, nv) = "1" THEN {Err(s, "constraint")}
    ELSE IF FromM(s, nv) # "*" /\ Sources(s, nv, t) \ {k} # {}
         THEN {Err(s, "constraint"), Err(s, "key")}
    ELSE {Ok([s EXCEPT !.links[nv.as] =
                 (@ \ {Pair(nv, k, x) : x \in T}) \cup {Pair(nv, k, t)}])}

Required(s, nv) == ToM(s, nv) = "1" \/ FromM(s, nv) = "1"

Unlink(s, nv, k, t) ==
    IF t \notin Targets(s, nv, k)
    THEN {Err(s, "key")} \cup (IF Required(s, nv) THEN {Err(s, "constraint")} ELSE {})
    ELSE IF Required(s, nv) THEN {Err(s, "constraint")}
    ELSE {Ok([s EXCEPT !.links[nv.as] = @ \ {Pair(nv, k, t)}])}

Clear(s, nv, k) ==
    IF Targets(s, nv, k) = {} THEN {Ok(s)}
    ELSE IF Required(s, nv) THEN {Err(s, "constraint")}
    ELSE {Ok([s EXCEPT !.links[nv.as] =
                 @ \ {Pair(nv, k, x) : x \in Targets(s, nv, k)}])}

(***************************************************************************)
(* Deletion takes with it everything that cannot exist without the entity   *)
(***************************************************************************)
Dependents(s, set, k) ==
    UNION {{<<s.sch.assocs[x].b, p[2]>> : p \in {q \in s.links[x] : q[1] = k}} :
           x \in {y \in DOMAIN s.sch.assocs :
                    s.sch.assocs[y].a = set /\ s.sch.assocs[y].ma = "1"}} \cup
    UNION {{<<s.sch.assocs[x].a, p[1]>> : p \in {q \in s.links[x] : q[2] = k}} :
           x \in {y \in DOMAIN s.sch.assocs :
                    s.sch.assocs[y].b = set /\ s.sch.assocs[y].mb = "1"}}

RECURSIVE Cascade(_, _)
Cascade(s, D) == LET N == D \cup UNION {Dependents(s, d[1], d[2]) : d \in D}
                 IN IF N = D THEN D ELSE Cascade(s, N)

Remove(s, D) ==
    [s EXCEPT
      !.ents = [x \in DOMAIN s.ents |->
                  Restrict(s.ents[x], {k \in DOMAIN s.ents[x] : <<x, k>> \notin D})],
      !.media = [x \in DOMAIN s.media |->
                  Restrict(s.media[x], {k \in DOMAIN s.media[x] : <<x, k>> \notin D})],
      !.links = [x \in DOMAIN s.links |->
                  {p \in s.links[x] : /\ <<s.sch.assocs[x].a, p[1]>> \notin D
                                      /\ <<s.sch.assocs[x].b, p[2]>> \notin D}]]

(***************************************************************************)
(* Insertion, with the entities bound to the new one (which may be new      *)
(* themselves).  exempt: the end the entity is created from.                *)
(***************************************************************************)
\* the ends of associations that entities of set cannot exist without
Needs(s, set) ==
    {<<x, FALSE>> : x \in {y \in DOMAIN s.sch.assocs :
        s.sch.assocs[y].a = set /\ s.sch.assocs[y].mb = "1"}} \cup
    {<<x, TRUE>> : x \in {y \in DOMAIN s.sch.assocs :
        s.sch.assocs[y].b = set /\ s.sch.assocs[y].ma = "1"}}

Selected(s, set, sel, p) ==
    sel = <<>> \/ s.sch.sets[set][p].top \in Range(sel)

NewRec(s, set, op) ==
    [p \in DOMAIN s.sch.sets[set] |->
        IF s.sch.sets[set][p].tok # "" THEN op.newtok[p]
        ELSE IF Selected(s, set, op.sel, p)
        THEN IF p \in DOMAIN op.vals THEN op.vals[p] ELSE 0
        ELSE s.sch.sets[set][p].def]

\* a failed insertion takes the entity away again
Undo(set, k, xs) ==
    {IF x.ok \/ k \notin Keys(x.s, set) THEN x
     ELSE [x EXCEPT !.s = Remove(x.s, Cascade(x.s, {<<set, k>>}))] : x \in xs}

\* a new entity may take the place of the one a navigation property led to
AddNew(s, nv, k, t) ==
    Undo(nv.to, t, Link(s, nv, k, t)) \cup
    (IF ToM(s, nv) # "*" THEN Undo(nv.to, t, Replace(s, nv, k, t)) ELSE {})

RECURSIVE Insert(_, _, _, _), Binds(_, _, _, _)
Insert(s, set, op, exempt) ==
    LET bound == {LET nv == Nav(s, set, op.binds[i].nav) IN <<nv.as, nv.rev>> :
                     i \in 1..Len(op.binds)}
        missing == (Needs(s, set) \ bound) \ exempt
    IN IF op.key \in Keys(s, set) THEN
            {Err(s, "constraint")} \cup
            {x \in Binds(s, set, op.key, op.binds) : ~x.ok}
       ELSE IF missing # {} THEN {Err(s, "constraint")} \cup
            {x \in Binds(s, set, op.key, op.binds) : ~x.ok}
       ELSE Undo(set, op.key,
                 Binds([s EXCEPT !.ents[set] = Put(@, op.key, NewRec(s, set, op))],
                       set, op.key, op.binds))

\* in no particular order
Binds(s, set, k, binds) ==
    IF binds = <<>> THEN {Ok(s)}
    ELSE UNION {
         LET b == binds[i]
             rest == [j \in 1..(Len(binds) - 1) |-> binds[IF j < i THEN j ELSE j + 1]]
             nv == Nav(s, set, b.nav)
             one == IF b.k = "key"
                    THEN IF b.key \notin Keys(s, nv.to) THEN {Err(s, "key")}
                         ELSE IF ToM(s, nv) = "*" THEN Link(s, nv, k, b.key)
                         ELSE Replace(s, nv, k, b.key)
                    ELSE UNION {IF x.ok THEN AddNew(x.s, nv, k, b.key) ELSE {x} :
                           x \in Insert(s, nv.to, b, {<<nv.as, ~nv.rev>>})}
         IN UNION {IF x.ok THEN Binds(x.s, set, k, rest) ELSE {x} : x \in one}
         : i \in 1..Len(binds)}

Delete(s, set, k) ==
    IF k \notin Keys(s, set) THEN {Err(s, "key")}
    ELSE {Ok(Remove(s, Cascade(s, {<<set, k>>})))}

Update(s, set, op) ==
    IF op.key \notin Keys(s, set) THEN {Err(s, "key")}
    ELSE LET old == s.ents[set][op.key]
             new == [p \in DOMAIN s.sch.sets[set] |->
                        IF Selected(s, set, op.sel, p)
                        THEN IF s.sch.sets[set][p].tok # "" THEN op.newtok[p]
                             ELSE IF p \in DOMAIN op.vals THEN op.vals[p] ELSE old[p]
                        ELSE IF op.merge THEN old[p] ELSE s.sch.sets[set][p].def]
             toks == {p \in DOMAIN s.sch.sets[set] : s.sch.sets[set][p].tok # ""
                                                     /\ Selected(s, set, op.sel, p)}
             plain == {p \in DOMAIN s.sch.sets[set] : s.sch.sets[set][p].tok = ""}
         IN IF \E p \in toks : p \in DOMAIN op.vals /\ op.vals[p] # old[p]
            THEN {Err(s, "concurrency")}
            ELSE IF \E p \in toks : /\ new[p] = old[p]
                                    /\ \/ s.sch.sets[set][p].tok = "new"
                                       \/ \E q \in plain : new[q] # old[q]
            THEN {} \* the token has to change
            ELSE Binds([s EXCEPT !.ents[set][op.key] = new], set, op.key, op.binds)

(***************************************************************************)
(* Operations: the outcomes of op, each a state and a result                *)
(***************************************************************************)
OK == [r |-> "ok"]
E(x) == [r |-> "err", v |-> x]
I(n) == [r |-> "int", v |-> n]
R(x) == [r |-> "rec", v |-> x]
K(S) == [r |-> "keys", v |-> S]

\* a failed operation leaves no trace, except that "mem" may keep the parts
\* of a compound one that had been done
Settle(s, xs) ==
    {[s |-> x.s, res |-> OK] : x \in {y \in xs : y.ok}} \cup
    {[s |-> s, res |-> E(x.e)] : x \in {y \in xs : ~y.ok}} \cup
    (IF s.be = "mem"
     THEN {[s |-> x.s, res |-> E(x.e)] : x \in {y \in xs : ~y.ok}} ELSE {})

Only(s, res) == {[s |-> s, res |-> res]}

Exec(s, op) ==
    LET set == op.set IN
    CASE op.n = "insert" -> Settle(s, Insert(s, set, op, {}))
      [] op.n = "update" -> Settle(s, Update(s, set, op))
      [] op.n = "delete" -> Settle(s, Delete(s, set, op.key))
      \* media streams: the entity may get another key than the one wanted
      \* if that is taken; an entity without a stream has an empty one (1)
      [] op.n = "newstream" ->
            IF op.want # 0 /\ op.want \notin Keys(s, set) /\ op.key # op.want THEN {}
            ELSE {[s |-> IF x.res = OK
                         THEN [x.s EXCEPT !.media[set] = Put(@, op.key, op.data)]
                         ELSE x.s,
                   res |-> x.res] : x \in Settle(s, Insert(s, set, op, {}))}
      [] op.n = "setstream" ->
            Only(IF op.key \notin Keys(s, set) THEN s
                 ELSE [s EXCEPT !.media[set] = Put(@, op.key, op.data)],
                 IF op.key \notin Keys(s, set) THEN E("key") ELSE OK)
      [] op.n = "getstream" ->
            Only(s, IF op.key \notin Keys(s, set) THEN E("key")
                    ELSE I(IF op.key \in DOMAIN s.media[set]
                           THEN s.media[set][op.key] ELSE 1))
      [] op.n = "read" ->
            Only(s, IF op.key \notin Keys(s, set) THEN E("key")
                    ELSE LET r == s.ents[set][op.key] IN
                         R(Restrict(r, {p \in DOMAIN r : p = "_" \/
                                          Selected(s, set, op.sel, p)})))
      [] op.n = "has" -> Only(s, I(IF op.key \in Keys(s, set) THEN 1 ELSE 0))
      [] op.n = "len" -> Only(s, I(Cardinality(Keys(s, set))))
      [] op.n = "keys" -> Only(s, K(Keys(s, set)))
      [] op.n = "assign" ->
            Only(s, IF op.from \notin Keys(s, set) THEN E("key")
                    ELSE IF op.from # op.key THEN E("other ValueError") ELSE OK)
      [] OTHER ->
         LET nv == Nav(s, set, op.nav)
             k == op.key
             T == Targets(s, nv, k)
         IN IF k \notin Keys(s, set) THEN Only(s, E("key"))
            ELSE CASE op.n = "navkeys" -> Only(s, K(T))
                   [] op.n = "navget" -> Only(s, K(T))
                   [] op.n = "navhas" -> Only(s, I(IF op.t \in T THEN 1 ELSE 0))
                   [] op.n = "navread" ->
                        Only(s, IF op.t \in T THEN R(s.ents[nv.to][op.t]) ELSE E("key"))
                   [] op.n = "link" ->
                        IF op.t \notin Keys(s, nv.to) THEN Only(s, E("key"))
                        ELSE Settle(s, Link(s, nv, k, op.t))
                   [] op.n = "replace" ->
                        IF op.t \notin Keys(s, nv.to) THEN Only(s, E("key"))
                        ELSE Settle(s, Replace(s, nv, k, op.t))
                   [] op.n = "unlink" -> Settle(s, Unlink(s, nv, k, op.t))
                   [] op.n = "clear" -> Settle(s, Clear(s, nv, k))
                   [] op.n = "navinsert" ->
                        Settle(s, UNION {
                           IF x.ok THEN Undo(nv.to, op.ent.key, Link(x.s, nv, k, op.ent.key))
                           ELSE {x} :
                             x \in Insert(s, nv.to, op.ent, {<<nv.as, ~nv.rev>>})})

(***************************************************************************)
(* What must hold of every state                                            *)
(***************************************************************************)
LinksExist(s) ==
    \A x \in DOMAIN s.links : x # "_" => \A p \in s.links[x] :
        /\ p[1] \in Keys(s, s.sch.assocs[x].a)
        /\ p[2] \in Keys(s, s.sch.assocs[x].b)

Within(m, n) == CASE m = "1" -> n = 1 [] m = "?" -> n <= 1 [] OTHER -> TRUE

MultiplicityHolds(s) ==
    \A x \in DOMAIN s.links \ {"_"} :
        /\ \A k \in Keys(s, s.sch.assocs[x].a) :
              Within(s.sch.assocs[x].mb, Cardinality({p \in s.links[x] : p[1] = k}))
        /\ \A k \in Keys(s, s.sch.assocs[x].b) :
              Within(s.sch.assocs[x].ma, Cardinality({p \in s.links[x] : p[2] = k}))
=============================================================================
