---------------------------- MODULE AuthSpaceMC ----------------------------
(* One client, any servers: credentials stay in their space, and no server  *)
(* can keep a request alive with challenges alone                           *)
EXTENDS AuthSpace

CONSTANTS Requests, Moves

Spaces == {"A", "B"}
Paths == {<<"">>, <<"p">>, <<"p", "">>, <<"p", "q">>}
URLs == [space : Spaces, path : Paths]
Creds == {[id |-> 1, space |-> "A", realm |-> "", dirs |-> {}],
          [id |-> 2, space |-> "A", realm |-> "R", dirs |-> {}],
          [id |-> 3, space |-> "B", realm |-> "R", dirs |-> {}]}
Challenges == {<<>>} \cup [1..1 -> [scheme : {"basic", "x"},
                                    realm : {"R", "S"}]]

(* hist: [id, url, why] of everything sent with credentials *)
VARIABLES C, all, r, pc, sent, n, m, tries, good

vars == <<C, all, r, pc, sent, n, m, tries, good>>

Init ==
    /\ C \in SUBSET Creds /\ all = C
    /\ r = [url |-> [space |-> "A", path |-> <<"">>], method |-> "GET",
            hdr |-> NONE, tried |-> NONE]
    /\ pc = "idle" /\ sent = NONE /\ n = 0 /\ m = 0 /\ tries = 0
    /\ good = {}

Start ==
    /\ pc = "idle" /\ n < Requests
    /\ \E u \in URLs : r' = [url |-> u, method |-> "GET", hdr |-> NONE,
                             tried |-> NONE]
    /\ pc' = "send" /\ n' = n + 1 /\ m' = 0 /\ tries' = 0
    /\ UNCHANGED <<C, all, sent, good>>

Send ==
    /\ pc = "send"
    /\ sent' \in Carries(C, r)
    /\ r' = [r EXCEPT !.hdr = sent']
    /\ pc' = "wait"
    /\ UNCHANGED <<C, all, n, m, tries, good>>

Reply ==
    /\ pc = "wait"
    /\ \/ /\ C' = Learn(C, r, 200)
          /\ good' = good \cup (IF r.tried = NONE THEN {}
                                ELSE {<<r.tried, Dir(r.url.path)>>})
          /\ \/ pc' = "idle" /\ UNCHANGED <<r, m, tries>>
             \/ /\ m < Moves /\ m' = m + 1
                /\ \E u \in URLs : r' = Moved(r, u)
                /\ pc' = "send" /\ tries' = 0
       \/ /\ C' = Learn(C, r, 401)
          /\ \E chs \in Challenges :
                \/ /\ Retries(C', r, chs) = {}
                   /\ pc' = "idle" /\ UNCHANGED <<r, tries>>
                \/ /\ r' \in Retries(C', r, chs)
                   /\ pc' = "send" /\ tries' = tries + 1
          /\ UNCHANGED <<m, good>>
    /\ UNCHANGED <<all, n, sent>>

Next == Start \/ Send \/ Reply
Spec == Init /\ [][Next]_vars

Carried == pc = "wait" /\ sent # NONE
(* never outside the protection space *)
Inside == Carried => Get(all, sent).space = r.url.space
(* unprompted only where they are good, or following a redirection *)
Prompted == Carried /\ r.tried = NONE /\ m = 0 =>
    \E g \in good : g[1] = sent /\ Below(g[2], r.url.path)
(* each round of challenges costs credentials *)
Bounded == tries <= Cardinality(all)
=============================================================================
