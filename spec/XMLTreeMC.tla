----------------------------- MODULE XMLTreeMC -----------------------------
EXTENDS XMLTree, TLC, Json
CONSTANTS N, Classes, IDs, Docs, Texts
VARIABLE st

Empty == [n |-> 0, cls |-> <<>>, par |-> <<>>, kids |-> <<>>, id |-> <<>>,
          root |-> <<0, 0>>]

E == Elems(st)
Ops == {[n |-> "root", d |-> d, c |-> c] : d \in DOMAIN st.root, c \in Classes}
   \cup {[n |-> "new", c |-> c] : c \in Classes}
   \cup {[n |-> "add", p |-> p, c |-> c] : p \in E, c \in Classes}
   \cup {[n |-> "del", p |-> p, e |-> e] : p \in E, e \in E}
   \cup {[n |-> "att", p |-> p, e |-> e] : p \in E, e \in E}
   \cup {[n |-> "doc", e |-> e] : e \in E}
   \cup {[n |-> "id", e |-> e, i |-> i] : e \in E, i \in IDs \cup {""}}
   \cup {[n |-> "text", e |-> e, t |-> t] : e \in E, t \in Texts}
   \cup {[n |-> "reset", e |-> e] : e \in E}
   \cup {[n |-> "copy", e |-> e, p |-> p] : e \in E, p \in E \cup {0}}

Small(s) == /\ s.n <= N /\ Len(s.root) <= Docs + 1
            /\ \A e \in Elems(s) : Len(s.kids[e]) <= 3
Usable(op) == /\ op.n = "text" => ~\E i \in DOMAIN st.kids[op.e] :
                                      st.kids[op.e][i][1] = 0
              \* the box arranges its own children
              /\ op.n = "att" => st.cls[op.p] \notin {"E", "B"}
              /\ op.n = "copy" /\ op.p # 0 =>
                   ~(st.cls[op.p] = "B" /\ st.cls[op.e] = "S"
                     /\ Single(st, op.p) # {})

Say(v) == PrintT("@" \o ToJson(v))

Init == st = Empty /\ Say([init |-> ToString(st)])
Next == \E op \in Ops :
          LET r == Exec(st, op) IN
          /\ Usable(op) /\ Small(r.st)
          /\ st' = r.st
          /\ Say([a |-> ToString(st), op |-> op, b |-> ToString(r.st)])
Inv == Consistent(st)
=============================================================================
