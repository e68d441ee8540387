----------------------------- MODULE ODataQuery -----------------------------
(***************************************************************************)
(* What a collection of entities shows under query options: filter, order,  *)
(* select, page window (top, skip, token) and maximum page size.            *)
(*                                                                          *)
(* Entities are records [key |-> n, v |-> [path |-> value]].  Values are    *)
(* integers: the value itself for integer properties, otherwise the rank of *)
(* the value among those in use (so that order and equality are those of    *)
(* the integers); Null for null; booleans 0 and 1.  Expressions are trees   *)
(* [o |-> operator, a |-> operands] or literals [o |-> "lit", v |-> value]  *)
(* or properties [o |-> "prop", n |-> path].  strs gives the characters of  *)
(* each string value.                                                       *)
(*                                                                          *)
(* A collection c is a record:                                              *)
(*   base    the keys of the entities in it (before filtering)              *)
(*   f, ob   filter (or <<>>) and ordering (sequence of [e, d])             *)
(*   sel     selected properties ({}: all)                                  *)
(*   top, skip, pos, max    page options (Null if not set); pos is the      *)
(*           number of entities before the page the token refers to         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Null == -99

Bool(b) == IF b THEN 1 ELSE 0

RECURSIVE Eval(_, _, _)

IsPrefix2(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuffix2(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
IsIn(p, s) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p

Eval(x, ent, strs) ==
    CASE x.o = "lit" -> x.v
      [] x.o = "prop" -> ent.v[x.n]
      [] x.o \in {"add", "sub", "mul"} ->
            LET l == Eval(x.a[1], ent, strs)
                r == Eval(x.a[2], ent, strs)
            IN  IF l = Null \/ r = Null THEN Null
                ELSE CASE x.o = "add" -> l + r
                       [] x.o = "sub" -> l - r
                       [] OTHER -> l * r
      [] x.o \in {"eq", "ne", "lt", "le", "gt", "ge"} ->
            LET l == Eval(x.a[1], ent, strs)
                r == Eval(x.a[2], ent, strs)
                n == l = Null \/ r = Null
            IN  Bool(CASE x.o = "eq" -> l = r
                       [] x.o = "ne" -> l # r
                       [] x.o = "lt" -> ~n /\ l < r
                       [] x.o = "le" -> ~n /\ l <= r
                       [] x.o = "gt" -> ~n /\ l > r
                       [] OTHER -> ~n /\ l >= r)
      [] x.o = "and" -> Bool(Eval(x.a[1], ent, strs) = 1 /\ Eval(x.a[2], ent, strs) = 1)
      [] x.o = "or" -> LET l == Eval(x.a[1], ent, strs)
                           r == Eval(x.a[2], ent, strs)
                       IN  \* [MS-ODATA]: false if an operand is null
                           Bool(l # Null /\ r # Null /\ (l = 1 \/ r = 1))
      [] x.o = "not" -> LET v == Eval(x.a[1], ent, strs)
                        IN  IF v = Null THEN Null ELSE 1 - v
      [] x.o = "length" -> LET v == Eval(x.a[1], ent, strs)
                           IN  IF v = Null THEN Null ELSE Len(strs[v])
      [] OTHER ->
            \* startswith(s, p), endswith(s, p), substringof(p, s)
            LET l == Eval(x.a[1], ent, strs)
                r == Eval(x.a[2], ent, strs)
            IN  IF l = Null \/ r = Null THEN Null
                ELSE Bool(CASE x.o = "startswith" -> IsPrefix2(strs[r], strs[l])
                            [] x.o = "endswith" -> IsSuffix2(strs[r], strs[l])
                            [] OTHER -> IsIn(strs[l], strs[r]))

Matches(db, c) ==
    {k \in c.base : c.f = <<>> \/ Eval(c.f, db.ents[k], db.strs) = 1}

\* does a come before b in the ordering: -1 before, 0 tie, 1 after
RECURSIVE Cmp(_, _, _, _, _)
Cmp(db, ob, i, a, b) ==
    IF i > Len(ob) THEN 0
    ELSE LET x == Eval(ob[i].e, db.ents[a], db.strs)
             y == Eval(ob[i].e, db.ents[b], db.strs)
         IN  IF x = y THEN Cmp(db, ob, i + 1, a, b)
             ELSE IF (x < y) = (ob[i].d > 0) THEN -1 ELSE 1

\* the order of pages: ties by key (keys of the specification are ranks)
Before(db, c, a, b) ==
    LET x == Cmp(db, c.ob, 1, a, b)
    IN  x < 0 \/ (x = 0 /\ a < b)

Sorted(db, c) ==
    LET m == Matches(db, c)
        pos(k) == 1 + Cardinality({j \in m : Before(db, c, j, k)})
    IN  [i \in 1..Cardinality(m) |-> CHOOSE k \in m : pos(k) = i]

Min(a, b) == IF a = Null THEN b ELSE IF b = Null THEN a ELSE IF a < b THEN a ELSE b

Start(c) == c.pos + (IF c.skip = Null THEN 0 ELSE c.skip)

Limit(c) == Min(c.top, c.max)

\* The keys of the current page
Page(db, c) ==
    LET s == Sorted(db, c)
        n == Limit(c)
        e == IF n = Null THEN Len(s) ELSE Start(c) + n
    IN  SubSeq(s, Start(c) + 1, IF e > Len(s) THEN Len(s) ELSE e)

\* Must there be a token for the next page, and may there be one?  A page
\* cut off by the maximum size has one if there is more; it may have one (to
\* an empty page) if it is full.
Cut(c) == c.max # Null /\ (c.top = Null \/ c.top > c.max)
More(db, c) == Start(c) + Len(Page(db, c)) < Cardinality(Matches(db, c))
TokenMust(db, c) == Cut(c) /\ c.top # 0 /\ More(db, c)
TokenMay(db, c) == Cut(c) /\ c.top # 0 /\ Len(Page(db, c)) = c.max

\* reading on: the same options from after this page; nothing after a page
\* that was not full
Advance(db, c) ==
    LET p == Page(db, c)
    IN  [c EXCEPT !.pos = IF Limit(c) = Null \/ Len(p) < Limit(c)
                          THEN Cardinality(Matches(db, c)) ELSE Start(c) + Len(p),
                  !.skip = Null]

NewColl(base) == [base |-> base, f |-> <<>>, ob |-> <<>>, sel |-> {},
                  top |-> Null, skip |-> Null, pos |-> 0, max |-> Null]

Reset(c) == [c EXCEPT !.top = Null, !.skip = Null, !.pos = 0]
=============================================================================
