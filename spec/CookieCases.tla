---------------------------- MODULE CookieCases ----------------------------
(* All short lists of public suffix rules with the registered domain of     *)
(* each domain, and all pairs of short paths with what matches              *)
EXTENDS CookieStore, TLC, Json

CONSTANTS Depths, Many

Tuples(S, lo, hi) == UNION {[1..i -> S] : i \in lo..hi}
L == {"a", "b"}
Domains == Tuples(L, 1, 4)
Rules == Tuples(L, 1, 3) \cup
         {Append(r, "*") : r \in Tuples(L, 1, 2)}
Excs == Tuples(L, 2, 3)

(* exceptions from something public, with no rules inside them *)
Sane(R) == \A x \in R.exc :
    /\ ~\E r \in R.pub \cup R.exc : Len(r) > Len(x) /\ Prefix(x, r)
    /\ Public([R EXCEPT !.exc = {}], Front(x))

RuleSets == {R \in [depth : Depths, pub : UNION {
                        {{f[i] : i \in DOMAIN f} : f \in [1..k -> Rules]} :
                                        k \in 0..Many},
                    exc : {{}} \cup {{x} : x \in Excs}] : Sane(R)}

Segs == {"", "a", "ab"}
CookiePaths == Tuples(Segs, 1, 3)

VARIABLES q
Say(v) == PrintT("@" \o ToJson(v))

Init ==
    \/ /\ q \in {[k |-> "psl", R |-> r] : r \in RuleSets}
       /\ Say([k |-> "psl", depth |-> q.R.depth, pub |-> q.R.pub,
               exc |-> q.R.exc,
               ans |-> {<<d, Registered(q.R, d)>> : d \in Domains}])
    \/ /\ q \in {[k |-> "path", c |-> c] : c \in CookiePaths}
       /\ Say([k |-> "path", c |-> q.c,
               yes |-> {r \in CookiePaths : PathMatch(q.c, r)},
               no |-> {r \in CookiePaths : ~PathMatch(q.c, r)},
               def |-> DefaultPath(q.c)])
Next == UNCHANGED q
Spec == Init /\ [][Next]_q

(* The segments say the same as the characters: c matches r if r begins     *)
(* with c, followed by nothing, or "/" within c or after it                 *)
RECURSIVE Text(_)
Text(p) == IF p = <<>> THEN "" ELSE "/" \o p[1] \o Text(Tail(p))
CharMatch(c, r) ==
    /\ Len(c) <= Len(r)
    /\ SubSeq(r, 1, Len(c)) = c
    /\ \/ Len(c) = Len(r)
       \/ SubSeq(c, Len(c), Len(c)) = "/"
       \/ SubSeq(r, Len(c) + 1, Len(c) + 1) = "/"
Chars == q.k = "path" => \A r \in CookiePaths :
    PathMatch(q.c, r) <=> CharMatch(Text(q.c), Text(r))
Lengths == q.k = "path" => PathLen(q.c) = Len(Text(q.c))
(* registered domains are prefixes, one label longer than a public suffix *)
Reg == q.k = "psl" => \A d \in Domains :
    LET g == Registered(q.R, d) IN
    g # <<>> => /\ Prefix(g, d) /\ ~Public(q.R, g)
                /\ Registered(q.R, g) = g
                /\ Len(g) > 1 => Public(q.R, Front(g))
=============================================================================
