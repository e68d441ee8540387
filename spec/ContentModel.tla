--------------------------- MODULE ContentModel ---------------------------
(***************************************************************************)
(* What a validating XML parser has to say about the content of elements.  *)
(*                                                                         *)
(* A content model is                                                      *)
(*   [k |-> "E"]                       EMPTY                               *)
(*   [k |-> "A"]                       ANY                                 *)
(*   [k |-> "M", names |-> <<...>>]    mixed                               *)
(*   [k |-> "P", p |-> particle]       element content                     *)
(* and a particle is                                                       *)
(*   [k |-> "n", n |-> name, o |-> occ]                                    *)
(*   [k |-> "c", ch |-> <<particle..>>, o |-> occ]     a choice            *)
(*   [k |-> "s", ch |-> <<particle..>>, o |-> occ]     a sequence          *)
(* with occ one of "1", "?", "*" and "+".                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Range_(s) == {s[i] : i \in 1..Len(s)}

---------------------------------------------------------------------------
(* What a model means: the sequences of children it allows                 *)

RECURSIVE Match(_, _)
RECURSIVE MatchSeq(_, _)
RECURSIVE Once(_, _)
RECURSIVE Many(_, _)

Once(p, w) ==
    CASE p.k = "n" -> w = <<p.n>>
      [] p.k = "c" -> \E i \in 1..Len(p.ch) : Match(p.ch[i], w)
      [] p.k = "s" -> MatchSeq(p.ch, w)

MatchSeq(ch, w) ==
    IF ch = <<>> THEN w = <<>>
    ELSE \E i \in 0..Len(w) :
            /\ Match(Head(ch), SubSeq(w, 1, i))
            /\ MatchSeq(Tail(ch), SubSeq(w, i + 1, Len(w)))

Many(p, w) ==
    \/ w = <<>>
    \/ \E i \in 1..Len(w) :
            /\ Once(p, SubSeq(w, 1, i))
            /\ Many(p, SubSeq(w, i + 1, Len(w)))

Match(p, w) ==
    CASE p.o = "1" -> Once(p, w)
      [] p.o = "?" -> w = <<>> \/ Once(p, w)
      [] p.o = "*" -> Many(p, w)
      [] p.o = "+" -> IF w = <<>> THEN Once(p, w) ELSE Many(p, w)

Allowed(m, w) ==
    CASE m.k = "E" -> w = <<>>
      [] m.k = "A" -> TRUE
      [] m.k = "M" -> \A i \in 1..Len(w) : w[i] \in Range_(m.names)
      [] m.k = "P" -> Match(m.p, w)

---------------------------------------------------------------------------
(* The state of a parse within an element with element content: a set of   *)
(* what may still come, each a sequence of particles (with the path by     *)
(* which each is reached in the model, which tells occurrences of the same *)
(* name apart).                                                            *)

RECURSIVE Nullable(_)
Nullable(p) ==
    \/ p.o \in {"?", "*"}
    \/ p.k = "c" /\ (\E i \in 1..Len(p.ch) : Nullable(p.ch[i]))
    \/ p.k = "s" /\ (\A i \in 1..Len(p.ch) : Nullable(p.ch[i]))

NullableStack(t) == \A i \in 1..Len(t) : Nullable(t[i].p)

RECURSIVE StackSteps(_)
RECURSIVE PSteps(_, _)

(* The ways to take one name: [n, id, to]                                  *)
PSteps(p, path) ==
    LET kids == [i \in 1..(IF p.k = "n" THEN 0 ELSE Len(p.ch)) |->
                    [p |-> p.ch[i], path |-> Append(path, i)]]
        base == CASE p.k = "n" -> {[n |-> p.n, id |-> path, to |-> <<>>]}
                  [] p.k = "c" -> UNION {PSteps(kids[i].p, kids[i].path) :
                                            i \in DOMAIN kids}
                  [] p.k = "s" -> StackSteps(kids)
        again == <<[p |-> [p EXCEPT !.o = "*"], path |-> path]>>
    IN  IF p.o \in {"1", "?"} THEN base
        ELSE {[b EXCEPT !.to = @ \o again] : b \in base}

StackSteps(t) ==
    IF t = <<>> THEN {}
    ELSE {[b EXCEPT !.to = @ \o Tail(t)] :
                b \in PSteps(Head(t).p, Head(t).path)}
         \cup (IF Nullable(Head(t).p) THEN StackSteps(Tail(t)) ELSE {})

Steps(st) == UNION {StackSteps(t) : t \in st}

Start(p) == {<<[p |-> p, path |-> <<>>]>>}
After(st, n) == {b.to : b \in {c \in Steps(st) : c.n = n}}
MayEnd(st) == \E t \in st : NullableStack(t)

(* A model is deterministic if one always knows, from the name alone,      *)
(* which of its particles comes next.                                      *)
RECURSIVE ReachSt(_, _)
ReachSt(seen, todo) ==
    IF todo = {} THEN seen
    ELSE LET new == UNION {LET ss == Steps(st) IN
                           {{b.to : b \in {c \in ss : c.id = i}} :
                                i \in {c.id : c \in ss}} : st \in todo}
                    \ (seen \cup todo)
         IN  ReachSt(seen \cup todo, new)

Clash(st) == LET ss == Steps(st) IN
    \E b, c \in ss : b.n = c.n /\ b.id # c.id

Deterministic(m) ==
    CASE m.k \in {"E", "A"} -> TRUE
      [] m.k = "M" -> Cardinality(Range_(m.names)) = Len(m.names)
      [] m.k = "P" -> \A st \in ReachSt({}, {Start(m.p)}) : ~Clash(st)

---------------------------------------------------------------------------
(* An element being parsed: [n, m, st, dead].  m is the model, or one of   *)
(* kind "U" for an element with no declaration; dead is set when one of    *)
(* its children has been complained about.                                 *)

Undeclared == [k |-> "U"]

Frame(n, m) ==
    [n |-> n, m |-> m, dead |-> FALSE,
     st |-> IF m.k = "P" THEN Start(m.p) ELSE {}]

NamesAllowed(f) ==
    CASE f.m.k = "E" -> {}
      [] f.m.k = "M" -> Range_(f.m.names)
      [] f.m.k = "P" -> {b.n : b \in Steps(f.st)}

EndAllowed(f) == IF f.m.k = "P" THEN MayEnd(f.st) ELSE TRUE

ChildOK(f, n) ==
    CASE f.m.k \in {"A", "U"} -> TRUE
      [] OTHER -> n \in NamesAllowed(f)

Child(f, n) ==
    IF ~ChildOK(f, n) THEN [f EXCEPT !.dead = TRUE]
    ELSE IF f.m.k = "P" THEN [f EXCEPT !.st = After(f.st, n)]
    ELSE f

(* Other content.  White space is only insignificant in element content    *)
(* when it is written as such.                                             *)
Others == {"space", "text", "cdata", "nocdata", "charref", "spaceref",
           "entity", "spaceentity", "noentity", "comment", "pi"}

OtherOK(f, k) ==
    CASE f.m.k = "E" -> FALSE
      [] f.m.k = "P" -> k \in {"space", "spaceentity", "noentity",
                               "comment", "pi"}
      [] OTHER -> TRUE
=============================================================================
