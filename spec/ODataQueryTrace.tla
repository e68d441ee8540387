-------------------------- MODULE ODataQueryTrace --------------------------
(* Validates recorded queries.  cfg: [ents: key (1..n) -> entity, strs].    *)
(* toks: what is known about tokens: [t, f, ob, base, pos].                 *)
EXTENDS TraceCheck, ODataQuery, SequencesExt

QInit(cfg) == {[db |-> cfg, c |-> NewColl({}), toks |-> {}]}

Opts(c) == <<c.base, c.f, c.ob>>

RowOk(s, r) ==
    \A p \in DOMAIN r.v :
        r.v[p] = (IF s.c.sel = {} \/ s.db.tops[p] \in s.c.sel
                  THEN s.db.ents[r.key].v[p] ELSE Null)

RowsOk(s, rows) == \A i \in 1..Len(rows) : RowOk(s, rows[i])

Keys2(rows) == [i \in 1..Len(rows) |-> rows[i].key]

QStep(s, e) ==
    CASE e.k = "open" -> {[s EXCEPT !.c = NewColl(ToSet(e.base))]}
      [] e.k = "filter" -> {[s EXCEPT !.c = Reset([@ EXCEPT !.f = e.f])]}
      [] e.k = "orderby" -> {[s EXCEPT !.c = Reset([@ EXCEPT !.ob = e.ob])]}
      [] e.k = "select" -> {[s EXCEPT !.c.sel = ToSet(e.sel)]}
      [] e.k = "max" -> {[s EXCEPT !.c.max = e.n]}
      [] e.k = "page" ->
            IF e.tok = "" THEN {[s EXCEPT !.c.top = e.top, !.c.skip = e.skip, !.c.pos = 0]}
            ELSE {[s EXCEPT !.c.top = e.top, !.c.skip = e.skip, !.c.pos = t.pos] :
                    t \in {x \in s.toks : x.t = e.tok /\ x.o = Opts(s.c)}}
      [] e.k = "iter" ->
            \* all matches in order; ties in any order
            LET ks == Keys2(e.rows)
                m == Matches(s.db, s.c)
            IN  IF /\ ToSet(ks) = m
                   /\ Len(ks) = Cardinality(m)
                   /\ \A i \in 1..(Len(ks) - 1) : Cmp(s.db, s.c.ob, 1, ks[i], ks[i + 1]) <= 0
                   /\ RowsOk(s, e.rows)
                THEN {s} ELSE {}
      [] e.k = "iterpage" ->
            LET ok == /\ Keys2(e.rows) = Page(s.db, s.c)
                      /\ RowsOk(s, e.rows)
                      /\ TokenMust(s.db, s.c) => e.tok # ""
                      /\ e.tok # "" => TokenMay(s.db, s.c)
                at == [t |-> e.tok, o |-> Opts(s.c), pos |-> Start(s.c) + Len(e.rows)]
                s2 == IF e.tok = "" THEN s ELSE [s EXCEPT !.toks = @ \cup {at}]
            IN  IF ~ok THEN {}
                ELSE IF e.next THEN {[s2 EXCEPT !.c = Advance(s.db, s.c)]}
                ELSE {s2}
      [] e.k = "len" -> IF e.n = Cardinality(Matches(s.db, s.c)) THEN {s} ELSE {}
      [] e.k = "has" -> IF e.b = (e.key \in Matches(s.db, s.c)) THEN {s} ELSE {}
      [] e.k = "get" ->
            IF Len(e.rows) > 0
            THEN IF e.key \in Matches(s.db, s.c) /\ e.rows[1].key = e.key /\ RowsOk(s, e.rows)
                 THEN {s} ELSE {}
            ELSE IF e.key \notin Matches(s.db, s.c) THEN {s} ELSE {}
      [] OTHER -> {}

QWhy(s, e) ==
    [order |-> Sorted(s.db, s.c), page |-> Page(s.db, s.c),
     must |-> TokenMust(s.db, s.c), may |-> TokenMay(s.db, s.c),
     c |-> [s.c EXCEPT !.base = SetToSeq(@)], toks |-> s.toks]
=============================================================================
