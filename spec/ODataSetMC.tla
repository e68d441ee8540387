----------------------------- MODULE ODataSetMC -----------------------------
(* One entity set with a plain property P and one, Q, with a default: every *)
(* state and every choice of selected properties and values.                *)
EXTENDS ODataStore, TLC, Json

CONSTANTS NKeys, NVals

Sch == [sets |-> [S |-> [P |-> [def |-> 0, top |-> "P", tok |-> ""],
                         Q |-> [def |-> 2, top |-> "Q", tok |-> ""]]
                        @@ ("_" :> [def |-> 0, top |-> "_", tok |-> ""])],
        assocs |-> ("_" :> [a |-> "", ma |-> "*", b |-> "", mb |-> "*"]),
        navs |-> [S |-> ("_" :> [as |-> "", rev |-> FALSE, to |-> ""])]]
VARIABLE s

Sels == {<<>>, <<"P">>, <<"Q">>, <<"P", "Q">>}
In(p, sel) == sel = <<>> \/ p \in Range(sel)
ValsOf(sel) ==
    UNION {{f @@ ("_" :> 0) : f \in [D -> 0..NVals]} :
              D \in SUBSET {p \in {"P", "Q"} : In(p, sel)}}
Writes(n, m) ==
    UNION {{[n |-> n, set |-> "S", key |-> k, sel |-> sel, vals |-> v, binds |-> <<>>,
             merge |-> m] : k \in 1..NKeys, v \in ValsOf(sel)} : sel \in Sels}
Ops == Writes("insert", TRUE) \cup Writes("update", TRUE) \cup Writes("update", FALSE)
       \cup {[n |-> "delete", set |-> "S", key |-> k] : k \in 1..NKeys}
       \cup {[n |-> "read", set |-> "S", key |-> k, sel |-> sel] : k \in 1..NKeys, sel \in Sels}

Say(v) == PrintT("@" \o ToJson(v))
View(x) == [i \in 1..NKeys |-> IF i \in Keys(x, "S") THEN x.ents["S"][i] ELSE ("_" :> 0)]

Init == s = Init0(Sch, "sql") /\ Say([init |-> View(s)])
Next == \E op \in Ops : \E o \in Exec(s, op) :
            /\ s' = o.s
            /\ Say([a |-> View(s), op |-> op, b |-> View(o.s)])

\* records are complete and hold only known values; keys are the known ones
Complete == \A k \in Keys(s, "S") :
               /\ k \in 1..NKeys
               /\ s.ents["S"][k] \in [{"P", "Q", "_"} -> 0..(NVals + 2)]
\* a refused operation changes nothing, an accepted one only its own entity
Local == [][\A k \in 1..NKeys :
              (\E j \in 1..NKeys \ {k} : View(s)[j] # View(s')[j]) =>
                 View(s)[k] = View(s')[k]]_s
=============================================================================
