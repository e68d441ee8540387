---------------------------- MODULE ODataQueryMC ----------------------------
(* Every small collection, filter, ordering and window, read page by page:  *)
(* the pages together are the window of the matches, whatever the maximum    *)
(* page size; each page starts where the last ended.  Each configuration is  *)
(* printed for replay.                                                       *)
EXTENDS ODataQuery, TLC, Json

CONSTANTS NEnts, Vals, Emit

VARIABLES db, c, c0, read, pages

vars == <<db, c, c0, read, pages>>

A == [o |-> "prop", n |-> "A"]
Lit(v) == [o |-> "lit", v |-> v]
Filters == {<<>>, [o |-> "ne", a |-> <<A, Lit(1)>>], [o |-> "eq", a |-> <<A, Lit(Null)>>],
            [o |-> "ge", a |-> <<A, Lit(1)>>]}
Orders == {<<>>, <<[e |-> A, d |-> 1]>>, <<[e |-> A, d |-> -1]>>}

Init ==
    /\ \E vs \in [1..NEnts -> Vals] :
         db = [ents |-> [k \in 1..NEnts |-> [key |-> k, v |-> [A |-> vs[k]]]], strs |-> <<>>]
    /\ \E f \in Filters, ob \in Orders, max \in {Null, 1, 2}, top \in {Null, 1, 2, 3}, skip \in 0..2 :
         c = [base |-> 1..NEnts, f |-> f, ob |-> ob, sel |-> {},
              top |-> top, skip |-> skip, pos |-> 0, max |-> max]
    /\ c0 = c
    /\ read = <<>>
    /\ pages = 0
    /\ IF Emit
       THEN PrintT("@" \o ToJson([vs |-> [k \in 1..NEnts |-> db.ents[k].v.A], f |-> c.f,
                                  ob |-> c.ob, max |-> c.max, top |-> c.top, skip |-> c.skip]))
       ELSE TRUE

Next ==
    /\ Page(db, c) # <<>>
    /\ read' = read \o Page(db, c)
    /\ c' = Advance(db, c)
    /\ pages' = pages + 1
    /\ UNCHANGED <<db, c0>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Window == LET s == Sorted(db, c0)
              b == IF Start(c0) < Len(s) THEN Start(c0) ELSE Len(s)
          IN  SubSeq(s, b + 1, Len(s))

InOrder == \E n \in 0..Len(Window) : read = SubSeq(Window, 1, n)
AllRead == Page(db, c) = <<>> => read = Window
\* the token is there exactly while a cut page leaves something to read
TokenOk == /\ TokenMust(db, c) => TokenMay(db, c)
           /\ (TokenMay(db, c) /\ ~TokenMust(db, c)) => Page(db, Advance(db, c)) = <<>>
Ends == <>(Page(db, c) = <<>>)
=============================================================================
