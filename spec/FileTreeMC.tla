----------------------------- MODULE FileTreeMC -----------------------------
(* Trees over two names and two levels, every operation.                    *)
EXTENDS FileTree, Json

CONSTANT NData
VARIABLE s

Names == {"a", "ab"}
Places == {<<"", n>> : n \in Names} \cup {<<"", "a", "a">>, <<"", "a", "ab">>}
Datas == {[i \in 1..k |-> 64 + i] : k \in 0..(NData - 1)}
Ops == {[n |-> n, p |-> p] : n \in {"mkdir", "makedirs", "remove", "listdir", "get",
                                   "exists", "isfile", "isdir"}, p \in Places}
       \cup {[n |-> "rmtree", p |-> p, ign |-> g] : p \in Places, g \in {TRUE, FALSE}}
       \cup {[n |-> "put", p |-> p, data |-> d] : p \in Places, d \in Datas}
       \cup {[n |-> "copy", p |-> p, q |-> q] : p \in Places, q \in Places \cup {<<"", "">>}}
       \cup {[n |-> "listdir", p |-> <<"", "">>]}

Say(v) == PrintT("@" \o ToJson(v))
View(x) == {<<t, IF x.tree[t].d THEN 0 ELSE Len(x.tree[t].data) + 1>> : t \in DOMAIN x.tree}

Init == s = S0 /\ Say([init |-> View(s)])
Next == \E op \in Ops : \E o \in Exec(s, op) :
            /\ s' = o.s
            /\ (op.n \in {"exists", "isfile", "isdir"} => TRUE)
            /\ Say([a |-> View(s), op |-> op, b |-> View(o.s)])

Closed == TreeClosed(s)
\* a failed operation changes nothing
Atomic == \A op \in Ops : \A o \in Exec(s, op) : o.r.r = "err" => o.s = s

\* the path algebra, over all paths of up to 4 parts (checked once)
Parts == {"", ".", "..", "a", "b"}
Paths == UNION {[1..k -> Parts] : k \in 1..4}
Cwds == {<<>>, <<"w">>, <<"w", "x", "y", "z">>}
ASSUME \A p \in Paths :
         /\ Norm(Norm(p)) = Norm(p)
         /\ IsAbs(Norm(p)) = IsAbs(p)
         /\ \A c \in Cwds : Den(c, Norm(p)) = Den(c, p)
         /\ \A i \in DOMAIN Norm(p) :
               Norm(p)[i] = "." => Norm(p) = <<".">>
ASSUME \A p, q \in {x \in Paths : Len(x) < 4} : \A c \in Cwds :
         Den(c, Join2(p, q)) = Den(Den(c, p), q)
=============================================================================
