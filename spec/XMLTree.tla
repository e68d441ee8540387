------------------------------ MODULE XMLTree ------------------------------
(***************************************************************************)
(* Document trees under edits (pyslet.xml.structures).                      *)
(*                                                                          *)
(* A state st has                                                           *)
(*   n       number of elements created so far (1..n)                       *)
(*   cls     their classes: "P" plain, "E" always empty, "B" a box: one S   *)
(*           child, a list of M children, then anything; no text;           *)
(*           "S", "M" otherwise plain                                       *)
(*   par     parent: 0 none, e element, -d document d                       *)
(*   kids    content: a sequence of <<element, "">> and <<0, text>>         *)
(*   id      "" or an ID                                                    *)
(*   root    of each document: 0 or an element                              *)
(* The ID table of a document is a function of the above.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Elems(st) == 1..st.n

RECURSIVE Sub(_, _)
\* the elements of a subtree, in document order
RECURSIVE SubSeqs(_, _, _)
Sub(st, e) == <<e>> \o SubSeqs(st, st.kids[e], 1)
SubSeqs(st, k, i) == IF i > Len(k) THEN <<>>
                     ELSE (IF k[i][1] = 0 THEN <<>> ELSE Sub(st, k[i][1]))
                          \o SubSeqs(st, k, i + 1)
Range(s) == {s[i] : i \in DOMAIN s}
Tree(st, e) == Range(Sub(st, e))

RECURSIVE Top(_, _)
\* the document of an element, or 0
Top(st, e) == IF st.par[e] < 0 THEN -st.par[e]
              ELSE IF st.par[e] = 0 THEN 0 ELSE Top(st, st.par[e])

In(st, d) == {e \in Elems(st) : Top(st, e) = d}
Table(st, d) == {<<st.id[e], e>> : e \in {x \in In(st, d) : st.id[x] # ""}}
Taken(st, d, i) == \E e \in In(st, d) : st.id[e] = i

\* IDs of a subtree: a clash with document d, or within the subtree
Clash(st, e, d) ==
    LET t == {x \in Tree(st, e) : st.id[x] # ""} IN
    \/ \E x \in t : Taken(st, d, st.id[x])
    \/ Cardinality({st.id[x] : x \in t}) < Cardinality(t)

Mixed(c) == c \notin {"E", "B"}

Without(k, e) == SelectSeq(k, LAMBDA x : x[1] # e)

\* where a child of class c goes in a box
Place(st, p, e) ==
    LET k == st.kids[p]  c == st.cls[e] IN
    IF st.cls[p] # "B" THEN Append(k, <<e, "">>)
    ELSE LET lead == IF c = "S" THEN {}
                     ELSE IF c = "M" THEN {"S", "M"} ELSE {"S", "M", "P", "E", "B"}
             pos == Cardinality({i \in DOMAIN k : st.cls[k[i][1]] \in lead})
         IN  SubSeq(k, 1, pos) \o <<<<e, "">>>> \o SubSeq(k, pos + 1, Len(k))

Single(st, p) == {x \in Elems(st) : <<x, "">> \in Range(st.kids[p])
                                    /\ st.cls[x] = "S"}

New(st, c, p) == [st EXCEPT !.n = @ + 1, !.cls = Append(@, c),
                  !.par = Append(@, p), !.kids = Append(@, <<>>),
                  !.id = Append(@, "")]

\* all content of e removed
Clear(st, e) ==
    [st EXCEPT !.kids[e] = <<>>,
               !.par = [x \in Elems(st) |-> IF @[x] = e THEN 0 ELSE @[x]]]

AddText(k, t) == IF k # <<>> /\ k[Len(k)][1] = 0
                 THEN SubSeq(k, 1, Len(k) - 1)
                        \o <<<<0, k[Len(k)][2] \o t>>>>
                 ELSE Append(k, <<0, t>>)

RECURSIVE Merge(_)
Merge(k) == IF k = <<>> THEN <<>>
            ELSE IF k[1][1] = 0 /\ Len(k) > 1 /\ k[2][1] = 0
            THEN Merge(<<<<0, k[1][2] \o k[2][2]>>>> \o SubSeq(k, 3, Len(k)))
            ELSE <<k[1]>> \o Merge(Tail(k))

---------------------------------------------------------------------------
(* Adding a child: [st, res, e]                                             *)
Add(st, p, c) ==
    IF st.cls[p] = "E" THEN [st |-> st, res |-> "invalid", e |-> 0]
    ELSE IF st.cls[p] = "B" /\ c = "S" /\ Single(st, p) # {}
    THEN LET x == CHOOSE x \in Single(st, p) : TRUE
         IN  [st |-> Clear(st, x), res |-> "ok", e |-> x]
    ELSE LET s1 == New(st, c, p)
         IN  [st |-> [s1 EXCEPT !.kids[p] = Place(s1, p, s1.n)],
              res |-> "ok", e |-> s1.n]

SetID(st, e, i) ==
    IF i = st.id[e] THEN [st |-> st, res |-> "ok"]
    ELSE IF i # "" /\ Top(st, e) # 0 /\ Taken(st, Top(st, e), i)
    THEN [st |-> st, res |-> "clash"]
    ELSE [st |-> [st EXCEPT !.id[e] = i], res |-> "ok"]

\* a copy of e (as it is in src) added to p (0: an orphan)
RECURSIVE Copy(_, _, _, _), CopyKids(_, _, _, _, _)
Copy(st, src, e, p) ==
    LET a == IF p = 0 THEN [st |-> New(st, src.cls[e], 0), res |-> "ok",
                            e |-> st.n + 1]
             ELSE Add(st, p, src.cls[e])
    IN  IF a.res # "ok" THEN a
        ELSE LET i == SetID(a.st, a.e, src.id[e]) IN
             IF i.res # "ok" THEN [st |-> st, res |-> i.res, e |-> 0]
             ELSE LET k == CopyKids(i.st, src, src.kids[e], 1, a.e)
                  IN  IF k.res = "ok"
                      THEN [k EXCEPT !.st.kids[a.e] = Merge(@)]
                      ELSE k
CopyKids(st, src, k, i, p) ==
    IF i > Len(k) THEN [st |-> st, res |-> "ok", e |-> p]
    ELSE IF k[i][1] = 0
    THEN CopyKids([st EXCEPT !.kids[p] = AddText(@, k[i][2])], src, k, i + 1, p)
    ELSE LET c == Copy(st, src, k[i][1], p) IN
         IF c.res # "ok" THEN c ELSE CopyKids(c.st, src, k, i + 1, p)

Exec(st, op) ==
    CASE op.n = "root" ->      \* a new root element for document d
           LET s0 == IF st.root[op.d] = 0 THEN st
                     ELSE [st EXCEPT !.par[st.root[op.d]] = 0]
               s1 == New(s0, op.c, -op.d)
           IN  [st |-> [s1 EXCEPT !.root[op.d] = s1.n], res |-> "ok", e |-> s1.n]
      [] op.n = "new" ->       \* an orphan
           [st |-> New(st, op.c, 0), res |-> "ok", e |-> st.n + 1]
      [] op.n = "add" -> Add(st, op.p, op.c)
      [] op.n = "del" ->
           IF <<op.e, "">> \in Range(st.kids[op.p])
           THEN [st |-> [st EXCEPT !.kids[op.p] = Without(@, op.e),
                                   !.par[op.e] = 0], res |-> "ok", e |-> 0]
           ELSE [st |-> st, res |-> "unknown", e |-> 0]
      [] op.n = "att" ->       \* an orphan becomes the last child of p
           IF st.par[op.e] # 0 \/ op.p \in Tree(st, op.e)
           THEN [st |-> st, res |-> "parent", e |-> 0]
           ELSE IF Top(st, op.p) # 0 /\ Clash(st, op.e, Top(st, op.p))
           THEN [st |-> st, res |-> "clash", e |-> 0]
           ELSE [st |-> [st EXCEPT !.par[op.e] = op.p,
                                   !.kids[op.p] = Append(@, <<op.e, "">>)],
                 res |-> "ok", e |-> 0]
      [] op.n = "doc" ->       \* a new document for an orphan
           IF st.par[op.e] # 0 THEN [st |-> st, res |-> "value", e |-> 0]
           ELSE IF Clash(st, op.e, 0 - 1)
           THEN [st |-> st, res |-> "clash", e |-> 0]
           ELSE [st |-> [st EXCEPT !.root = Append(@, op.e),
                                   !.par[op.e] = -(Len(st.root) + 1)],
                 res |-> "ok", e |-> 0]
      [] op.n = "id" ->
           IF op.i = "-" THEN [st |-> st, res |-> "badid", e |-> 0]
           ELSE LET r == SetID(st, op.e, op.i)
                IN  [st |-> r.st, res |-> r.res, e |-> 0]
      [] op.n = "text" ->
           IF Mixed(st.cls[op.e])
           THEN [st |-> [st EXCEPT !.kids[op.e] = AddText(@, op.t)],
                 res |-> "ok", e |-> 0]
           ELSE IF op.t = " " THEN [st |-> st, res |-> "ok", e |-> 0]
           ELSE [st |-> st, res |-> "invalid", e |-> 0]
      [] op.n = "value" ->     \* replace content by text ("": no content)
           IF ~Mixed(st.cls[op.e]) THEN [st |-> st, res |-> "mixed", e |-> 0]
           ELSE [st |-> [Clear(st, op.e) EXCEPT !.kids[op.e] =
                           IF op.t = "" THEN <<>> ELSE <<<<0, op.t>>>>],
                 res |-> "ok", e |-> 0]
      [] op.n = "reset" ->
           [st |-> Clear(st, op.e), res |-> "ok", e |-> 0]
      [] op.n = "merge" ->     \* content_changed
           [st |-> [st EXCEPT !.kids[op.e] = Merge(@)], res |-> "ok", e |-> 0]
      [] op.n = "copy" ->
           LET r == Copy(st, st, op.e, op.p) IN
           IF r.res = "ok" THEN r
           ELSE [st |-> st, res |-> r.res, e |-> 0]

---------------------------------------------------------------------------
(* Invariants of the design                                                 *)
Consistent(st) ==
    /\ \A e \in Elems(st) :
         LET holders == {p \in Elems(st) : <<e, "">> \in Range(st.kids[p])}
         IN  IF st.par[e] > 0 THEN holders = {st.par[e]}
             ELSE /\ holders = {}
                  /\ st.par[e] < 0 => st.root[-st.par[e]] = e
    /\ \A d \in DOMAIN st.root :
         st.root[d] # 0 => st.par[st.root[d]] = -d
    /\ \A e \in Elems(st) : Cardinality({i \in DOMAIN st.kids[e] :
          TRUE}) >= Cardinality(Range(st.kids[e]) \ {})
    /\ \A d \in DOMAIN st.root : \A x, y \in Table(st, d) :
         x[1] = y[1] => x = y

---------------------------------------------------------------------------
(* Searches                                                                 *)
RECURSIVE Find(_, _, _, _, _, _)
\* children k[i..] of class c, in document order, to the given depth
Find(st, k, i, c, deep, sub) ==
    IF i > Len(k) THEN <<>>
    ELSE LET e == k[i][1] IN
         (IF e = 0 THEN <<>>
          ELSE (IF st.cls[e] = c THEN <<e>> ELSE <<>>)
               \o (IF deep = 1 \/ (st.cls[e] = c /\ ~sub) THEN <<>>
                   ELSE Find(st, st.kids[e], 1, c, deep - 1, sub)))
         \o Find(st, k, i + 1, c, deep, sub)

RECURSIVE Up(_, _, _)
Up(st, e, c) == IF st.par[e] <= 0 THEN 0
                ELSE IF st.cls[st.par[e]] = c THEN st.par[e]
                ELSE Up(st, st.par[e], c)
=============================================================================
