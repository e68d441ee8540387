---------------------------- MODULE XMLTreeTrace ----------------------------
(* Event: [op, res, e |-> element returned, n, par, kids, id, doc |-> of    *)
(* each element, root, tab |-> for each document pairs <<ID, element>>,     *)
(* size |-> number of entries of each table,                                *)
(* find |-> searches made: <<class, depth, sub, from, depth first, breadth  *)
(* first>>, up |-> <<class, from, found>>]                                  *)
EXTENDS TraceCheck, XMLTree

XInit(cfg) == {[n |-> 0, cls |-> <<>>, par |-> <<>>, kids |-> <<>>,
                id |-> <<>>, root |-> <<0, 0>>]}

Errs == [invalid |-> {"XMLValidityError"}, unknown |-> {"XMLUnknownChild"},
         parent |-> {"XMLParentError"}, clash |-> {"XMLIDClashError"},
         value |-> {"ValueError"}, badid |-> {"XMLIDValueError"},
         mixed |-> {"XMLMixedContentError"}]

Bag(s) == [x \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]

ViewOK(s, e) ==
    /\ e.n = s.n /\ e.par = s.par /\ e.kids = s.kids /\ e.id = s.id
    /\ e.root = s.root
    /\ e.doc = [x \in Elems(s) |-> Top(s, x)]
    /\ \A d \in DOMAIN s.root :
         /\ Range(e.tab[d]) = Table(s, d)
         /\ e.size[d] = Cardinality(Table(s, d))
    /\ \A i \in DOMAIN e.find :
         LET f == e.find[i]
             want == Find(s, s.kids[f[4]], 1, f[1], f[2], f[3])
         IN  f[5] = want /\ Bag(f[6]) = Bag(want)
    /\ \A i \in DOMAIN e.up : e.up[i][3] = Up(s, e.up[i][2], e.up[i][1])

XStep(st, e) ==
    LET r == Exec(st, e.op) IN
    IF /\ IF r.res = "ok" THEN e.res = "ok" /\ e.e = r.e
          ELSE e.res \in Errs[r.res]
       /\ ViewOK(r.st, e)
    THEN {r.st} ELSE {}
XWhy(st, e) == LET r == Exec(st, e.op) IN
               <<r.res, r.e, r.st.n, r.st.par, r.st.kids, r.st.id, r.st.root>>
=============================================================================
