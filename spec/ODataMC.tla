------------------------------- MODULE ODataMC -------------------------------
(* Two entity sets and one association of each kind: every state, with the  *)
(* invariants of the model; the transitions are printed for replay.         *)
EXTENDS ODataStore, TLC, Json

CONSTANTS Ma, Mb, NavA, NavB, NKeys, Emit

None == [def |-> 0, top |-> "_", tok |-> ""]
Sch == [sets |-> [x \in {"A", "B"} |-> [_ |-> None]],
        assocs |-> [AB |-> [a |-> "A", ma |-> Ma, b |-> "B", mb |-> Mb]],
        navs |-> [A |-> IF NavA = "" THEN <<>>
                        ELSE (NavA :> [as |-> "AB", rev |-> FALSE, to |-> "B"]),
                  B |-> IF NavB = "" THEN <<>>
                        ELSE (NavB :> [as |-> "AB", rev |-> TRUE, to |-> "A"])]]
VARIABLE s

KeySet == 1..NKeys
NavsOf(set) == (IF set = "A" THEN {NavA} ELSE {NavB}) \ {""}
Ent(k, b) == [key |-> k, vals |-> [_ |-> 0], sel |-> <<>>, binds |-> b]
New(n, k, b) == [nav |-> n, k |-> "new"] @@ Ent(k, b)
BindsOf(set) ==
    {<<>>} \cup UNION {{<<[nav |-> n, k |-> "key", key |-> t]>> : t \in KeySet} : n \in NavsOf(set)}
    \cup UNION {{<<New(n, t, <<>>)>> : t \in KeySet} : n \in NavsOf(set)}
    \cup (IF \E n \in NavsOf(set) : ToM([sch |-> Sch], Sch.navs[set][n]) = "*"
          THEN UNION {{<<[nav |-> n, k |-> "key", key |-> t], New(n, u, <<>>)>> :
                         t \in KeySet, u \in KeySet} : n \in NavsOf(set)}
          ELSE {})
Ops ==
    UNION {{[n |-> "insert", set |-> x] @@ Ent(k, b) : k \in KeySet, b \in BindsOf(x)}
             : x \in {"A", "B"}}
    \cup {[n |-> "delete", set |-> x, key |-> k] : x \in {"A", "B"}, k \in KeySet}
    \cup UNION {{[n |-> "update", set |-> x, merge |-> TRUE] @@ Ent(k, b) :
                    k \in KeySet, b \in BindsOf(x) \ {<<>>}} : x \in {"A", "B"}}
    \cup UNION {UNION {
        {[n |-> o, set |-> x, key |-> k, nav |-> n, t |-> t] :
            o \in {"link", "replace", "unlink"}, k \in KeySet, t \in KeySet}
        \cup {[n |-> "clear", set |-> x, key |-> k, nav |-> n] : k \in KeySet}
        \cup {[n |-> "navinsert", set |-> x, key |-> k, nav |-> n, ent |-> Ent(t, <<>>)] :
                 k \in KeySet, t \in KeySet}
        : n \in NavsOf(x)} : x \in {"A", "B"}}

Say(v) == Emit => PrintT("@" \o ToJson(v))
View(x) == [a |-> DOMAIN x.ents["A"], b |-> DOMAIN x.ents["B"], l |-> x.links["AB"]]

Init == s = Init0(Sch, "sql") /\ Say([init |-> View(s)])
Next == \E op \in Ops : \E o \in Exec(s, op) :
            /\ s' = o.s
            /\ Say([a |-> View(s), op |-> op, b |-> View(o.s)])

LinksOk == LinksExist(s)
MultOk == MultiplicityHolds(s)
=============================================================================
