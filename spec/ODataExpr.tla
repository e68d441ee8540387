----------------------------- MODULE ODataExpr -----------------------------
(***************************************************************************)
(* OData (v2) common expressions: grammar, formatting and evaluation.      *)
(*                                                                          *)
(* A typed value is [t |-> type name ("None" for the untyped null),         *)
(* n |-> is null, v |-> sequence of integers]:                              *)
(*   numbers  <<numerator, denominator>> in lowest terms (dyadic)           *)
(*   Boolean  <<0>> or <<1>>;   String  code points;   Guid, Binary  bytes  *)
(*   DateTime <<y, m, d, h, mi, s>>;  Time <<h, mi, s>>                     *)
(*   DateTimeOffset <<instant in minutes>>                                  *)
(*   u |-> TRUE: the specification does not say (out of its range)          *)
(* A result is a value or Bad (an evaluation error).                        *)
(*                                                                          *)
(* A token is [k, x]: k in lit, prop, fn, op, neg, not, (, ), /, and comma; *)
(* An expression is [o |-> operator, a |-> operands] or a leaf              *)
(* [o |-> "lit", x |-> value], [o |-> "prop", p |-> name].                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Val(t, v) == [t |-> t, n |-> FALSE, v |-> v, u |-> FALSE]
NullOf(t) == [t |-> t, n |-> TRUE, v |-> <<>>, u |-> FALSE]
Unk(t) == [t |-> t, n |-> FALSE, v |-> <<>>, u |-> TRUE]
Bad == [t |-> "error", n |-> TRUE, v |-> <<>>, u |-> FALSE]
Untyped == NullOf("None")
BoolV(b) == Val("Boolean", <<IF b THEN 1 ELSE 0>>)

Numeric == <<"Byte", "Int16", "Int32", "Int64", "Decimal", "Single", "Double">>
Types == {"Boolean", "String", "DateTime", "DateTimeOffset", "Time", "Guid", "Binary"}
            \cup {Numeric[i] : i \in DOMAIN Numeric}
IsNum(t) == \E i \in DOMAIN Numeric : Numeric[i] = t
Rank(t) == CHOOSE i \in DOMAIN Numeric : Numeric[i] = t
\* the types that take part in arithmetic (after promotion)
Arith == {"Int32", "Int64", "Single", "Double", "Decimal"}
Whole == {"Byte", "Int16", "Int32", "Int64"}

(***************************************************************************)
(* Grammar                                                                  *)
(***************************************************************************)
Levels == << {"or"}, {"and"}, {"eq", "ne"}, {"lt", "gt", "le", "ge"},
             {"add", "sub"}, {"mul", "div", "mod"} >>
Level(op) == CHOOSE i \in DOMAIN Levels : op \in Levels[i]
Unary == 7
Primary == 8
BinOps == UNION {Levels[i] : i \in DOMAIN Levels}

Node(o, a) == [o |-> o, a |-> a]
Fail == [ok |-> FALSE, e |-> <<>>, i |-> 0]
Got(e, i) == [ok |-> TRUE, e |-> e, i |-> i]
At(t, i) == IF i <= Len(t) THEN t[i].k ELSE "end"

RECURSIVE PLevel(_, _, _), PRest(_, _, _, _), PUnary(_, _), PPrimary(_, _),
          PMembers(_, _, _), PArgs(_, _, _)

\* operators of one level, left to right
PLevel(t, lev, i) ==
    IF lev = Unary THEN PUnary(t, i)
    ELSE LET l == PLevel(t, lev + 1, i) IN
         IF l.ok THEN PRest(t, lev, l.e, l.i) ELSE Fail
PRest(t, lev, left, i) ==
    IF At(t, i) = "op" /\ t[i].x \in Levels[lev]
    THEN LET r == PLevel(t, lev + 1, i + 1) IN
         IF r.ok THEN PRest(t, lev, Node(t[i].x, <<left, r.e>>), r.i) ELSE Fail
    ELSE Got(left, i)
PUnary(t, i) ==
    IF At(t, i) \in {"neg", "not"}
    THEN LET r == PUnary(t, i + 1) IN
         IF r.ok THEN Got(Node(t[i].k, <<r.e>>), r.i) ELSE Fail
    ELSE PPrimary(t, i)
PPrimary(t, i) ==
    CASE At(t, i) = "lit" -> Got([o |-> "lit", x |-> t[i].x], i + 1)
      [] At(t, i) = "prop" -> PMembers(t, [o |-> "prop", p |-> t[i].x], i + 1)
      [] At(t, i) = "(" ->
            LET r == PLevel(t, 1, i + 1) IN
            IF r.ok /\ At(t, r.i) = ")" THEN Got(r.e, r.i + 1) ELSE Fail
      [] At(t, i) = "fn" ->
            IF At(t, i + 1) # "(" THEN Fail
            ELSE LET r == PArgs(t, <<>>, i + 2) IN
                 IF ~r.ok THEN Fail
                 ELSE IF t[i].x \in {"isof", "cast"} /\
                         ~(/\ Len(r.e) \in {1, 2}
                           /\ r.e[Len(r.e)].o = "lit"
                           /\ r.e[Len(r.e)].x.t = "String")
                      THEN Fail
                      ELSE Got(Node(t[i].x, r.e), r.i)
      [] OTHER -> Fail
PMembers(t, left, i) ==
    IF At(t, i) = "/"
    THEN IF At(t, i + 1) = "prop"
         THEN PMembers(t, Node("/", <<left, [o |-> "prop", p |-> t[i + 1].x]>>), i + 2)
         ELSE Fail
    ELSE Got(left, i)
PArgs(t, args, i) ==
    LET r == PLevel(t, 1, i) IN
    IF ~r.ok THEN Fail
    ELSE IF At(t, r.i) = "," THEN PArgs(t, Append(args, r.e), r.i + 1)
    ELSE IF At(t, r.i) = ")" THEN Got(Append(args, r.e), r.i + 1)
    ELSE Fail

\* the expression, or <<>> if the tokens are not one
Parse(t) == LET r == PLevel(t, 1, 1) IN
            IF r.ok /\ r.i = Len(t) + 1 THEN <<r.e>> ELSE <<>>

(***************************************************************************)
(* Formatting: brackets where the grammar would group otherwise             *)
(***************************************************************************)
Prec(e) == IF e.o \in BinOps THEN Level(e.o)
           ELSE IF e.o \in {"neg", "not"} THEN Unary ELSE Primary
Tok(k, x) == [k |-> k, x |-> x]
RECURSIVE Format(_), FormatArgs(_, _)
Wrap(e, p) == IF Prec(e) < p THEN <<Tok("(", "")>> \o Format(e) \o <<Tok(")", "")>>
              ELSE Format(e)
FormatArgs(a, i) ==
    IF i > Len(a) THEN <<Tok(")", "")>>
    ELSE (IF i > 1 THEN <<Tok(",", "")>> ELSE <<>>) \o Format(a[i]) \o FormatArgs(a, i + 1)
Format(e) ==
    CASE e.o = "lit" -> <<Tok("lit", e.x)>>
      [] e.o = "prop" -> <<Tok("prop", e.p)>>
      [] e.o = "/" -> Format(e.a[1]) \o <<Tok("/", "")>> \o Format(e.a[2])
      [] e.o \in {"neg", "not"} -> <<Tok(e.o, "")>> \o Wrap(e.a[1], Unary)
      [] e.o \in BinOps -> Wrap(e.a[1], Prec(e)) \o <<Tok("op", e.o)>> \o Wrap(e.a[2], Prec(e) + 1)
      [] OTHER -> <<Tok("fn", e.o), Tok("(", "")>> \o FormatArgs(e.a, 1)

(***************************************************************************)
(* Evaluation                                                               *)
(***************************************************************************)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
MaxN == 20000
\* a number of type t, if it is within the range of the specification
Num(t, n, d) ==
    LET g == IF n = 0 THEN d ELSE Gcd(Abs(n), d)
        n2 == n \div g
        d2 == d \div g
    IN  IF Abs(n2) > MaxN \/ d2 \notin {1, 2, 4, 8, 16, 32, 64} THEN Unk(t)
        ELSE Val(t, <<n2, d2>>)
\* truncation towards 0
Trunc(n, d) == IF n >= 0 THEN n \div d ELSE 0 - ((0 - n) \div d)
Floor(n, d) == n \div d

\* the type two operands are promoted to, "error" if there is none
Promote(a, b) ==
    IF a = b THEN a
    ELSE IF a = "None" THEN b
    ELSE IF b = "None" THEN a
    ELSE IF ~IsNum(a) \/ ~IsNum(b) THEN "error"
    ELSE IF Rank(a) > Rank(b) THEN a
    ELSE b

Unknown(x) == x.u

Arithmetic(o, l, r) ==
    LET t == Promote(l.t, r.t) IN
    IF t = "None" THEN NullOf("Int32")
    ELSE IF t \notin Arith THEN Bad
    ELSE IF l.u \/ r.u THEN Unk(t)
    ELSE IF l.n \/ r.n THEN NullOf(t)
    ELSE LET a == l.v[1] b == l.v[2] c == r.v[1] d == r.v[2]
         IN CASE o = "add" -> Num(t, a * d + c * b, b * d)
              [] o = "sub" -> Num(t, a * d - c * b, b * d)
              [] o = "mul" -> Num(t, a * c, b * d)
              [] o = "div" ->
                    IF c = 0 THEN Bad
                    ELSE IF t \in Whole
                    THEN Num(t, IF c > 0 THEN Trunc(a, c) ELSE Trunc(0 - a, 0 - c), 1)
                    ELSE Num(t, IF c > 0 THEN a * d ELSE 0 - a * d, b * Abs(c))
              [] OTHER ->
                    \* mod: the sign of the dividend
                    IF c = 0 THEN Bad
                    ELSE LET q == Trunc(IF c > 0 THEN a * d ELSE 0 - a * d, b * Abs(c))
                         IN  Num(t, a * d - q * c * b, b * d)

RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE
               ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1]
               ELSE LexLt(Tail(a), Tail(b))

ValLt(t, a, b) == IF t \in Arith THEN a[1] * b[2] < b[1] * a[2] ELSE LexLt(a, b)

Relation(o, l, r) ==
    LET t == Promote(l.t, r.t) IN
    IF t = "None" THEN BoolV(FALSE)
    ELSE IF t \notin Arith \cup {"String", "DateTime", "DateTimeOffset", "Guid"} THEN Bad
    ELSE IF l.u \/ r.u THEN Unk("Boolean")
    ELSE IF l.n \/ r.n THEN BoolV(FALSE)
    ELSE LET lt == ValLt(t, l.v, r.v)
             gt == ValLt(t, r.v, l.v)
         IN  BoolV(CASE o = "lt" -> lt [] o = "gt" -> gt
                     [] o = "le" -> ~gt [] OTHER -> ~lt)

Equal(o, l, r) ==
    LET t == Promote(l.t, r.t) IN
    IF t = "None" THEN BoolV(o = "eq")
    ELSE IF t \notin Arith \cup {"String", "DateTime", "DateTimeOffset", "Guid", "Binary"}
    THEN Bad
    ELSE IF l.u \/ r.u THEN Unk("Boolean")
    ELSE IF l.n \/ r.n THEN BoolV((l.n = r.n) = (o = "eq"))
    ELSE BoolV((l.v = r.v) = (o = "eq"))

\* [MS-ODATA]: false if an operand is null
Logic(o, l, r) ==
    LET t == Promote(l.t, r.t) IN
    IF t \notin {"None", "Boolean"} THEN Bad
    ELSE IF l.u \/ r.u THEN Unk("Boolean")
    ELSE IF l.n \/ r.n THEN BoolV(FALSE)
    ELSE IF o = "and" THEN BoolV(l.v = <<1>> /\ r.v = <<1>>)
    ELSE BoolV(l.v = <<1>> \/ r.v = <<1>>)

Not(x) == IF x.n THEN IF x.t \in {"None", "Boolean"} THEN NullOf("Boolean") ELSE Unk("Boolean")
          ELSE IF x.t # "Boolean" THEN Bad
          ELSE IF x.u THEN x
          ELSE BoolV(x.v = <<0>>)

Negate(x) ==
    LET t == CASE x.t \in {"Byte", "Int16", "None"} -> "Int32"
               [] x.t = "Single" -> "Double"
               [] OTHER -> x.t
    IN  IF t \notin Arith THEN Bad
        ELSE IF x.n THEN NullOf(t)
        ELSE IF x.u THEN Unk(t)
        ELSE Val(t, <<0 - x.v[1], x.v[2]>>)

\* type names of isof and cast: code points of Edm.<type>
Isof(x, tn) ==
    IF x.n THEN BoolV(FALSE)
    ELSE IF tn \notin Types THEN Bad
    ELSE BoolV(Promote(tn, x.t) = tn)
Cast(x, tn) ==
    IF x.n THEN IF tn \in Types THEN NullOf(tn) ELSE Untyped
    ELSE IF tn \notin Types \/ Promote(tn, x.t) # tn THEN Bad
    ELSE [x EXCEPT !.t = tn]

\* strings
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
FindAll(s, p) == {i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p}
Find(s, p) == LET f == FindAll(s, p) IN
              IF f = {} THEN 0 - 1 ELSE CHOOSE i \in f : \A j \in f : i <= j
RECURSIVE Replace(_, _, _)
Replace(s, p, q) ==
    IF Starts(s, p) THEN q \o Replace(SubSeq(s, Len(p) + 1, Len(s)), p, q)
    ELSE IF s = <<>> THEN <<>>
    ELSE <<s[1]>> \o Replace(Tail(s), p, q)
Lower(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Upper(s) == [i \in DOMAIN s |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] = 32 THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s

Arity == [f \in {"tolower", "toupper", "trim", "length", "year", "month", "day",
                 "hour", "minute", "second", "round", "floor", "ceiling"} |-> {1}]
         @@ [f \in {"startswith", "endswith", "indexof", "substringof", "concat"} |-> {2}]
         @@ [f \in {"replace"} |-> {3}] @@ [f \in {"substring"} |-> {2, 3}]

Half(n, d) == (2 * n) % (2 * d) = d      \* n/d is an odd number of halves
RoundUp(n, d) ==        \* half away from 0
    IF n >= 0 THEN (2 * n + d) \div (2 * d) ELSE 0 - ((0 - 2 * n + d) \div (2 * d))
RoundEven(n, d) ==
    LET f == n \div d IN
    IF 2 * (n - f * d) = d THEN (IF f % 2 = 0 THEN f ELSE f + 1)
    ELSE (2 * n + d) \div (2 * d)

\* round, floor and ceiling: decimal for what can be cast to it (null too)
Rounding(f, x) ==
    IF x.t \notin {"None"} /\ ~IsNum(x.t) THEN Bad
    ELSE LET t == IF x.t \in {"None", "Decimal", "Int64", "Int32", "Int16"}
                  THEN "Decimal" ELSE "Double"
         IN IF x.n THEN NullOf(t)
            ELSE IF x.u THEN Unk(t)
            ELSE LET n == x.v[1] d == x.v[2]
                 IN  Val(t, <<CASE f = "round" -> (IF t = "Decimal" THEN RoundUp(n, d)
                                                  ELSE RoundEven(n, d))
                                [] f = "floor" -> n \div d
                                [] OTHER -> 0 - ((0 - n) \div d), 1>>)

Parts == <<"year", "month", "day", "hour", "minute", "second">>

Call(f, a) ==
    IF Len(a) \notin Arity[f] THEN Bad
    ELSE CASE f \in {"round", "floor", "ceiling"} -> Rounding(f, a[1])
      [] f \in {"year", "month", "day", "hour", "minute", "second"} ->
            IF a[1].t # "DateTime" THEN Bad
            ELSE IF a[1].n THEN NullOf("Int32")
            ELSE Val("Int32", <<a[1].v[CHOOSE i \in 1..6 : Parts[i] = f], 1>>)
      [] f \in {"tolower", "toupper", "trim"} ->
            IF a[1].t \notin {"String", "None"} THEN Bad
            ELSE IF a[1].n THEN NullOf("String")
            ELSE IF a[1].u THEN a[1]
            ELSE Val("String", CASE f = "tolower" -> Lower(a[1].v)
                                 [] f = "toupper" -> Upper(a[1].v)
                                 [] OTHER -> TrimL(TrimR(a[1].v)))
      [] f = "length" ->
            IF a[1].t # "String" THEN Bad
            ELSE IF a[1].n THEN NullOf("Int32")
            ELSE IF a[1].u THEN Unk("Int32")
            ELSE Val("Int32", <<Len(a[1].v), 1>>)
      [] f = "concat" ->
            IF a[1].t # "String" \/ a[2].t # "String" THEN Bad
            ELSE IF a[1].u \/ a[2].u THEN Unk("String")
            ELSE IF a[1].n \/ a[2].n THEN NullOf("String")
            ELSE Val("String", a[1].v \o a[2].v)
      [] f = "substring" ->
            IF a[1].t # "String" \/ \E i \in 2..Len(a) : a[i].t # "Int32" THEN Bad
            ELSE IF \E i \in 1..Len(a) : a[i].u THEN Unk("String")
            ELSE IF a[1].n \/ a[2].n THEN NullOf("String")
            ELSE IF \E i \in 2..Len(a) : a[i].n \/ a[i].v[1] < 0
            THEN Unk("String")
            ELSE LET s == a[1].v
                     from == a[2].v[1] + 1
                     to == IF Len(a) = 2 THEN Len(s) ELSE a[2].v[1] + a[3].v[1]
                 IN  Val("String", SubSeq(s, from, IF to > Len(s) THEN Len(s) ELSE to))
      [] OTHER ->
            LET t == IF f = "indexof" THEN "Int32"
                     ELSE IF f = "replace" THEN "String" ELSE "Boolean"
            IN  IF \E i \in DOMAIN a : a[i].t \notin {"String", "None"} THEN Bad
                ELSE IF \E i \in DOMAIN a : a[i].u THEN Unk(t)
                ELSE IF \E i \in DOMAIN a : a[i].n THEN NullOf(t)
                ELSE CASE f = "startswith" -> BoolV(Starts(a[1].v, a[2].v))
                       [] f = "endswith" -> BoolV(Ends(a[1].v, a[2].v))
                       [] f = "substringof" -> BoolV(FindAll(a[2].v, a[1].v) # {})
                       [] f = "indexof" -> Val("Int32", <<Find(a[1].v, a[2].v), 1>>)
                       [] OTHER -> IF a[2].v = <<>> THEN Unk("String")
                                   ELSE Val("String", Replace(a[1].v, a[2].v, a[3].v))

(***************************************************************************)
(* db: [names |-> code points of type names -> name, ent |-> property ->    *)
(* value, nav |-> property -> <<>> (not bound) or <<ent>>, self |-> code    *)
(* points of the name of the entity type]                                   *)
(***************************************************************************)
TypeName(db, v) == LET f == {i \in DOMAIN db.names : db.names[i].c = v} IN
                   IF f = {} THEN "?" ELSE db.names[CHOOSE i \in f : TRUE].t

RECURSIVE Eval(_, _)
Eval(db, e) ==
    CASE e.o = "lit" -> e.x
      [] e.o = "prop" -> IF e.p \in DOMAIN db.ent THEN db.ent[e.p]
                         ELSE IF e.p \notin DOMAIN db.nav THEN Bad
                         ELSE IF db.nav[e.p] = <<>> THEN Untyped
                         ELSE Unk("entity")
      [] e.o = "/" ->
            LET n == e.a[1].p
                p == e.a[2].p
            IN  IF e.a[1].o # "prop" THEN Bad
                ELSE IF n \in DOMAIN db.ent /\ db.ent[n].n THEN Untyped
                ELSE IF n \notin DOMAIN db.nav THEN Bad
                ELSE IF db.nav[n] = <<>> THEN Untyped
                ELSE IF p \notin DOMAIN db.nav[n][1] THEN Bad
                ELSE db.nav[n][1][p]
      [] e.o \in {"isof", "cast"} ->
            LET tn == TypeName(db, e.a[Len(e.a)].x.v)
            IN  IF Len(e.a) = 1
                THEN IF e.o = "isof" THEN BoolV(e.a[1].x.v = db.self)
                     ELSE Unk("entity")
                ELSE LET x == Eval(db, e.a[1]) IN
                     IF x = Bad THEN Bad
                     ELSE IF x.u THEN Unk("entity")
                     ELSE IF e.o = "isof" THEN Isof(x, tn) ELSE Cast(x, tn)
      [] OTHER ->
            LET a == [i \in DOMAIN e.a |-> Eval(db, e.a[i])]
            IN  IF \E i \in DOMAIN a : a[i].u THEN Unk("entity")
                ELSE IF \E i \in DOMAIN a : a[i] = Bad THEN Bad
                ELSE CASE e.o \in {"add", "sub", "mul", "div", "mod"} ->
                            Arithmetic(e.o, a[1], a[2])
                       [] e.o \in {"lt", "le", "gt", "ge"} -> Relation(e.o, a[1], a[2])
                       [] e.o \in {"eq", "ne"} -> Equal(e.o, a[1], a[2])
                       [] e.o \in {"and", "or"} -> Logic(e.o, a[1], a[2])
                       [] e.o = "not" -> Not(a[1])
                       [] e.o = "neg" -> Negate(a[1])
                       [] e.o \in DOMAIN Arity -> Call(e.o, a)
                       [] OTHER -> Bad
=============================================================================
