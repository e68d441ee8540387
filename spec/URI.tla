-------------------------------- MODULE URI --------------------------------
(***************************************************************************)
(* URI references (RFC 2396): text, resolution (section 5.2), relativising, *)
(* normal and canonical forms.                                              *)
(*                                                                          *)
(* A reference is                                                           *)
(*   [s |-> scheme or <<>>, a |-> authority or <<>>, k |-> "abs", "rel",    *)
(*    "none", p |-> path segments, q |-> query or <<>>, f |-> fragment]     *)
(* optional components being sequences of length 0 or 1.  The path "/a/b"   *)
(* is <<"a", "b">>, "/" is <<"">>, the empty path has k = "none", p = <<>>.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN ""
           ELSE IF Len(p) = 1 THEN p[1]
           ELSE p[1] \o "/" \o Join(Tail(p))

PathText(u) == IF u.k = "abs" THEN "/" \o Join(u.p) ELSE Join(u.p)

Opt(pre, o, post) == IF o = <<>> THEN "" ELSE pre \o o[1] \o post

Text(u) == Opt("", u.s, ":") \o Opt("//", u.a, "") \o PathText(u)
           \o Opt("?", u.q, "") \o Opt("#", u.f, "")

Front(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]

---------------------------------------------------------------------------
(* Steps 6c-6f: what is left may start with ".." segments that lead nowhere *)
RECURSIVE Fold(_, _)
Fold(out, p) ==
    IF p = <<>> THEN out
    ELSE LET c == p[1]  end == Len(p) = 1 IN
         IF c = "." THEN Fold(IF end THEN Append(out, "") ELSE out, Tail(p))
         ELSE IF c = ".." /\ out # <<>> /\ Last(out) # ".."
         THEN Fold(IF end THEN Append(Front(out), "") ELSE Front(out),
                   Tail(p))
         ELSE Fold(Append(out, c), Tail(p))
Normal(p) == Fold(<<>>, p)

\* a trailing ".." names a directory, like a trailing "../"
Slash(p) == IF p # <<>> /\ Last(p) = ".." THEN Append(p, "") ELSE p

NormPath(u) == [u EXCEPT !.p = Slash(Normal(u.p))]

---------------------------------------------------------------------------
(* Section 5.2: reference r in a document with base b                       *)
Empty(r) == r.s = <<>> /\ r.a = <<>> /\ r.k = "none" /\ r.q = <<>>

Merge(b, r) ==      \* b's directory, then r's path
    Front(b.p) \o (IF r.p = <<>> THEN <<"">> ELSE r.p)

Resolve(b, r) ==
    IF Empty(r) THEN [b EXCEPT !.f = r.f]
    ELSE IF r.s # <<>> THEN r
    ELSE IF r.a # <<>> THEN [r EXCEPT !.s = b.s]
    ELSE IF r.k = "abs" THEN [r EXCEPT !.s = b.s, !.a = b.a]
    ELSE IF b.k = "none" /\ b.a # <<>> /\ r.p = <<>>
    THEN [r EXCEPT !.s = b.s, !.a = b.a]
    ELSE [s |-> b.s, a |-> b.a,
          k |-> IF b.k = "abs" \/ b.a # <<>> THEN "abs" ELSE "rel",
          p |-> Normal(Merge(b, r)), q |-> r.q, f |-> r.f]

\* section 5.2 leaves a result that text cannot express: a path starting
\* with an empty segment and no authority, or a relative path that looks
\* like a scheme
Expressible(u) ==
    /\ ~(u.k = "abs" /\ u.a = <<>> /\ Len(u.p) > 1 /\ u.p[1] = "")
    /\ ~(u.k = "rel" /\ u.p # <<>> /\ u.p[1] \in {"", "a:b"})

\* is v an acceptable outcome of resolving to u?
\* (the form of leftover ".." segments, and of the root path of a base
\* without a path, is the implementation's choice)
Rooted(u) == IF u.k = "none" /\ u.a # <<>>
             THEN [u EXCEPT !.k = "abs", !.p = <<"">>]
             ELSE IF u.k = "none" /\ u.s = <<>> /\ u.q # <<>>
             THEN [u EXCEPT !.k = "rel", !.p = <<"">>] ELSE u
Resolves(b, r, v) ==
    LET u == Resolve(b, r) IN
    \/ v = u
    \/ v = [u EXCEPT !.p = Slash(u.p)]
    \/ b.k = "none" /\ r.p = <<>> /\ v = Rooted(u)
    \* resolving against a relative base: a relative result may be given in
    \* any form that means the same
    \/ u.s = <<>> /\ u.a = <<>> /\ u.k = "rel"
       /\ v.k = "rel" /\ [v EXCEPT !.p = Slash(Normal(v.p))]
                            = [u EXCEPT !.p = Slash(u.p)]

---------------------------------------------------------------------------
(* A reference that resolves to u against b, or <<>> if u is the only one   *)
(* (MC: Resolve(b, Relative(u, b)) is u normalised)                         *)
RECURSIVE Common(_, _)
Common(x, y) == IF x = <<>> \/ y = <<>> \/ x[1] # y[1] THEN 0
                ELSE 1 + Common(Tail(x), Tail(y))

Min(x, y) == IF x < y THEN x ELSE y

RelPath(path, base) ==
    LET dir == Front(base)
        c == Min(Common(path, dir), Len(path) - 1)
        up == [i \in 1..(Len(dir) - c) |-> ".."]
        r == up \o SubSeq(path, c + 1, Len(path))
    IN  IF r[1] \in {"", "a:b"} THEN <<".">> \o r ELSE r

Relative(u, b) ==
    IF u.s # b.s \/ u.a # b.a \/ u.k # "abs" \/ b.k # "abs" THEN u
    ELSE LET P == Slash(Normal(u.p))
             B == Normal(Append(Front(b.p), ""))  \* the directory
         IN  IF B # <<>> /\ B[1] = ".."
             THEN u
             ELSE [s |-> <<>>, a |-> <<>>, k |-> "rel",
                   p |-> RelPath(P, B), q |-> u.q, f |-> u.f]

\* b fixes something u leaves open: no reference leads from b to u
More(b, u) == \/ b.s # <<>> /\ u.s = <<>>
              \/ b.a # <<>> /\ u.a = <<>>
              \/ b.k = "abs" /\ u.s = <<>> /\ u.a = <<>> /\ u.k # "abs"
              \* more leading ".." than u
Ups(u) == LET p == Normal(u.p) IN
          Cardinality({i \in DOMAIN p : p[i] = ".."})
TooHigh(b, u) == b.k = "rel" /\ u.k = "rel" /\ Ups(b) > Ups(u)

\* schemes ignore case
LowScheme(u) == IF u.s = <<"HTTP">> THEN [u EXCEPT !.s = <<"http">>] ELSE u
Same(u) == LowScheme(Rooted(NormPath(u)))
SameResource(u, v) == Same(u) = Same(v)
=============================================================================
