------------------------------- MODULE URIMC -------------------------------
(* Every pair of small absolute URIs: laws of resolution.  Emits the URIs.  *)
EXTENDS URI, TLC, Json

CONSTANTS MaxSegs
VARIABLES b, u, x

Segs == {"", ".", "..", "a", "b"}
Paths == UNION {[1..n -> Segs] : n \in 1..MaxSegs}
Base == [s |-> <<"x">>, a |-> <<"h">>, k |-> "abs", p |-> <<>>,
         q |-> <<>>, f |-> <<>>]

Init == /\ b \in {[Base EXCEPT !.p = p] : p \in Paths}
        /\ u = b /\ x = 0
Next == /\ x = 0 /\ x' = 1 /\ b' = b
        /\ \E p \in Paths : u' = [b EXCEPT !.p = p]

RelForm(p) == [s |-> <<>>, a |-> <<>>, k |-> "rel", p |-> p,
               q |-> <<>>, f |-> <<>>]
Idem == Normal(Normal(u.p)) = Normal(u.p)
RoundTrip ==
    /\ Resolves(b, Relative(u, b), NormPath(u)) \/ Relative(u, b) = u
    /\ u.p[1] # "" =>
       Resolve(b, RelForm(u.p)).p = Normal(Front(b.p) \o u.p)
\* resolving in two steps or in one
Assoc == u.p[1] # "" =>
           Slash(Resolve(Resolve(b, RelForm(u.p)), RelForm(<<"..", "g">>)).p)
           = Slash(Normal(Front(b.p) \o Front(u.p) \o <<"..", "g">>))
           \/ ".." \in {u.p[i] : i \in DOMAIN u.p}
=============================================================================
