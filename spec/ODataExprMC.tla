----------------------------- MODULE ODataExprMC -----------------------------
(* Enumerates expressions: one state per case.  Prints each for replay.      *)
EXTENDS ODataExpr, Json, IOUtils

CONSTANTS Emit, Deep

VARIABLES kind, e, x, Db

Props == DOMAIN Db.ent

L(n) == [o |-> "lit", x |-> Val("Int32", <<n, 1>>)]
P(n) == [o |-> "prop", p |-> n]
B(b) == [o |-> "lit", x |-> BoolV(b)]

Say(toks) == IF Emit THEN PrintT("@" \o ToJson(toks)) ELSE TRUE

T(n) == Tok("lit", Val("Int32", <<n, 1>>))
Pre == {<<>>, <<"neg">>, <<"not">>, <<"neg", "neg">>, <<"not", "neg">>}
PreT(p) == [i \in DOMAIN p |-> Tok(p[i], "")]

\* 1. flat token lists: p1 1 op1 p2 2 op2 p3 3
Flat == [o1 : BinOps, o2 : BinOps, p1 : Pre, p2 : Pre, p3 : IF Deep THEN Pre ELSE {<<>>}]
FlatToks(f) == PreT(f.p1) \o <<T(1), Tok("op", f.o1)>> \o PreT(f.p2) \o <<T(2), Tok("op", f.o2)>>
               \o PreT(f.p3) \o <<T(3)>>
RECURSIVE App(_, _)
App(p, v) == IF p = <<>> THEN v ELSE Node(p[1], <<App(Tail(p), v)>>)
\* the precedence table, written independently of the grammar
Table == [o \in BinOps |->
            CASE o \in {"mul", "div", "mod"} -> 6 [] o \in {"add", "sub"} -> 5
              [] o \in {"lt", "gt", "le", "ge"} -> 4 [] o \in {"eq", "ne"} -> 3
              [] o = "and" -> 2 [] OTHER -> 1]
FlatTree(f) ==
    LET a == App(f.p1, L(1)) b == App(f.p2, L(2)) c == App(f.p3, L(3))
    IN  IF Table[f.o1] >= Table[f.o2] THEN Node(f.o2, <<Node(f.o1, <<a, b>>), c>>)
        ELSE Node(f.o1, <<a, Node(f.o2, <<b, c>>)>>)

\* 2. trees
Leaves == {L(1), P("i32")}
D1 == {Node(o, <<l, r>>) : o \in BinOps, l \in Leaves, r \in {L(2)}}
      \cup {Node(o, <<l>>) : o \in {"neg", "not"}, l \in Leaves}
      \cup {Node("length", <<P("s")>>), Node("concat", <<P("s"), P("s")>>),
            Node("/", <<P("C"), P("X")>>),
            Node("isof", <<P("i32"), [o |-> "lit", x |-> Val("String", Db.names[1].c)]>>)}
D2 == {Node(o, <<l, r>>) : o \in BinOps, l \in D1, r \in Leaves}
      \cup {Node(o, <<l, r>>) : o \in BinOps, l \in Leaves, r \in D1}
      \cup {Node(o, <<l, r>>) : o \in {"sub", "and", "eq"}, l \in D1, r \in D1}
      \cup {Node(o, <<l>>) : o \in {"neg", "not", "floor"}, l \in D1}
D3 == {Node(o, <<l, L(2)>>) : o \in BinOps, l \in D2}
      \cup {Node(o, <<L(2), l>>) : o \in BinOps, l \in D2}
      \cup {Node(o, <<l>>) : o \in {"neg", "not", "floor"}, l \in D2}

\* 3. every operator on every pair of sample values
Fn1 == {f \in DOMAIN Arity : Arity[f] = {1}}
Fn2 == {f \in DOMAIN Arity : 2 \in Arity[f]}

Init == kind = "start" /\ e = <<>> /\ x = <<>> /\ Db = JsonDeserialize(IOEnv.SAMPLES)

Cases ==
    \/ /\ kind' = "flat" /\ e' = <<>>
       /\ x' \in Flat
       /\ Say(FlatToks(x'))
    \/ /\ kind' = "tree" /\ x' = <<>>
       /\ \/ e' \in D1 \cup D2
          \/ Deep /\ e' \in D3
       /\ Say(Format(e'))
    \/ /\ kind' = "op" /\ x' = <<>>
       /\ \/ \E o \in BinOps \cup Fn2, p, q \in Props : e' = Node(o, <<P(p), P(q)>>)
          \/ \E o \in Fn1 \cup {"neg", "not"}, p \in Props : e' = Node(o, <<P(p)>>)
          \/ \E o \in {"isof", "cast"}, p \in Props, i \in DOMAIN Db.names :
                e' = Node(o, <<P(p), [o |-> "lit", x |-> Val("String", Db.names[i].c)]>>)
       /\ Say(Format(e'))

Next == kind = "start" /\ Cases /\ UNCHANGED Db

Case == kind # "start"
FlatOk == kind = "flat" => Parse(FlatToks(x)) = <<FlatTree(x)>>
RoundTrip == (Case /\ kind # "flat") => Parse(Format(e)) = <<e>>

R == Eval(Db, e)
Typed == (Case /\ kind # "flat") => (R = Bad \/ R.t \in Types)
\* relations never give null; nor do the connectives
NeverNull == (Case /\ kind # "flat" /\ e.o \in BinOps \ {"add", "sub", "mul", "div", "mod"} /\ R # Bad)
                => ~R.n
Swap == Eval(Db, Node(e.o, <<e.a[2], e.a[1]>>))
Commutes == (kind = "op" /\ e.o \in {"add", "mul", "eq", "ne", "and", "or"}) => Swap = R
Antisym == (kind = "op" /\ e.o \in {"lt", "le"}) =>
              R = Eval(Db, Node(IF e.o = "lt" THEN "gt" ELSE "ge", <<e.a[2], e.a[1]>>))
\* le is lt or eq, except that null eq null holds and null le null does not
LeIsLtOrEq == (kind = "op" /\ e.o = "le" /\ R # Bad /\ ~R.u /\ ~Eval(Db, e.a[1]).n) =>
              R = Eval(Db, Node("or", <<Node("lt", e.a), Node("eq", e.a)>>))
\* (a div b) mul b add (a mod b) = a for whole numbers
DivMod == (kind = "op" /\ e.o = "mod" /\ R # Bad /\ ~R.u /\ ~R.n /\ R.t \in Whole) =>
              Eval(Db, Node("add", <<Node("mul", <<Node("div", e.a), e.a[2]>>), e>>)).v
                = Eval(Db, e.a[1]).v
=============================================================================
