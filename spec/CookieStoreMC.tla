--------------------------- MODULE CookieStoreMC ---------------------------
(* Small histories of a cookie store: what leaves the jar stays within the  *)
(* site that put it there                                                   *)
EXTENDS CookieStore, TLC

CONSTANTS Times, Jar

Hosts == {<<"x">>, <<"x", "a">>, <<"x", "a", "b">>, <<"x", "c">>,
          <<"10.0.0.1">>}
Paths == {<<"">>, <<"p">>, <<"p", "">>, <<"p", "q">>, <<"pq">>}
URLs == [host : Hosts, path : {<<"">>, <<"p", "q">>}, secure : BOOLEAN]
Attrs == [name : {"n"}, dom : {<<>>} \cup Hosts, path : {<<>>, <<"p">>},
          secure : BOOLEAN, age : {<<>>}, exp : {NEVER, 0, 1}] \cup
         [name : {"n"}, dom : {<<>>, <<"x", "a">>}, path : {<<>>},
          secure : {FALSE}, age : {<<0>>, <<1>>}, exp : {NEVER, 0}]
RuleSets == {[depth |-> 1, pub |-> {}, exc |-> {}],
             [depth |-> 1, pub |-> {<<"x", "*">>}, exc |-> {<<"x", "c">>}],
             [depth |-> 1, pub |-> {<<"x", "a">>}, exc |-> {}],
             [depth |-> 9, pub |-> {}, exc |-> {<<"x", "a">>}]}

VARIABLES R, jar, now, n, from

vars == <<R, jar, now, n, from>>

Init ==
    /\ R \in RuleSets
    /\ jar = {} /\ now = 1 /\ n = 0 /\ from = <<>>

Set ==
    /\ n < Jar
    /\ \E u \in URLs, a \in Attrs :
        /\ Accept(R, u, a)
        /\ jar' = SetCookie(jar, R, u, a, n, now)
        /\ from' = Append(from, u)
    /\ n' = n + 1
    /\ UNCHANGED <<R, now>>

Tick == now < Times /\ now' = now + 1 /\ UNCHANGED <<R, jar, n, from>>
Session == jar' = EndSession(jar, now) /\ UNCHANGED <<R, now, n, from>>
Drop == \E t \in now..Times : jar' = Expire(jar, t)
        /\ UNCHANGED <<R, now, n, from>>

Next == Set \/ Tick \/ Session \/ Drop
Spec == Init /\ [][Next]_vars

OneOfEach == \A c, d \in jar : Same(c, d) => c = d
Setter(c) == from[c.id + 1]

(* A cookie for a domain never belongs to a public suffix, and is held for  *)
(* a host of that domain                                                    *)
Confined == \A c \in jar :
    /\ Prefix(c.dom, Setter(c).host)
    /\ c.hostonly => c.dom = Setter(c).host
    /\ ~c.hostonly => /\ ~Public(R, c.dom)
                      /\ Registered(R, c.dom) = Registered(R, Setter(c).host)
(* It is shown only within the site of its setter *)
SameSite == \A c \in jar : \A u \in URLs :
    Matches(c, u, now) =>
        \/ u.host = Setter(c).host
        \/ /\ Registered(R, u.host) # <<>>
           /\ Registered(R, u.host) = Registered(R, Setter(c).host)
Secret == \A c \in jar : \A u \in URLs :
    Matches(c, u, now) /\ c.secure => u.secure
Fresh == \A u \in URLs : \A c \in Found(jar, u, now) : Live(c, now)
OldestName == \A c \in jar : c.made <= now
=============================================================================
