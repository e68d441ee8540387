-------------------------- MODULE HTTPClientTrace ---------------------------
(* Validates what servers and callers see of one thread of a                *)
(* pyslet.http.client.Client                                                *)
EXTENDS TraceCheck, Integers, Sequences, FiniteSets

(* req: a function from requests to                                         *)
(*   [pc, post, s, ans, seen, auto]: pc "queued", "out" (head sent on s) or *)
(*   "over"; ans the answers on s; seen whether it was sent since queued    *)
(* socks: [s, t] of those open; bad: sockets that the server breaks; order: *)
(* requests out on each open socket, in order; refused: targets             *)
HInit(cfg) == {[req |-> <<>>, socks |-> {}, bad |-> {}, refused |-> FALSE]}

Has(s, i) == i \in DOMAIN s.req
Put(s, i, r) == [s EXCEPT !.req =
    [j \in DOMAIN s.req \cup {i} |-> IF j = i THEN r ELSE s.req[j]]]
Open(s, x) == \E k \in s.socks : k.s = x
Broken(s, x) == x \in s.bad \/ ~Open(s, x)

(* others out on socket x that have no complete answer *)
Waiting(s, x, i) ==
    {j \in DOMAIN s.req \ {i} :
        s.req[j].pc = "out" /\ s.req[j].s = x /\ s.req[j].ans = {}}

MayFollow(r, e) == e.to # "" /\ r.auto /\ (e.status # 302 \/ r.safe)

HStep(s, e) ==
    CASE e.k = "open" ->
            (* one connection to each server *)
            IF \E k \in s.socks : k.t = e.t THEN {}
            ELSE {[s EXCEPT !.socks = @ \cup {[s |-> e.s, t |-> e.t]}]}
      [] e.k = "shut" ->
            {[s EXCEPT !.socks = {k \in @ : k.s # e.s}]}
      [] e.k = "refused" -> {[s EXCEPT !.refused = TRUE]}
      [] e.k = "fault" -> {[s EXCEPT !.bad = @ \cup {e.s}]}
      [] e.k = "queue" ->
            {Put(s, e.i, [pc |-> "queued", post |-> e.post, safe |-> e.safe, s |-> 0,
                          ans |-> {}, t |-> e.t, auto |-> e.auto])}
      [] e.k = "got" ->
            IF ~Has(s, e.i) \/ ~Open(s, e.s) THEN {}
            ELSE LET r == s.req[e.i]
                 IN  IF /\ \/ r.pc = "queued"
                           \* another try
                           \/ r.pc = "out" /\ ~r.post /\ Broken(s, r.s)
                              /\ e.s # r.s
                        /\ [s |-> e.s, t |-> r.t] \in s.socks
                        /\ r.post => Waiting(s, e.s, e.i) = {}
                     THEN {Put(s, e.i, [r EXCEPT !.pc = "out", !.s = e.s,
                                                 !.ans = {}])}
                     ELSE {}
      [] e.k = "wait" ->
            (* no longer than the caller said *)
            IF e.asked >= 0 /\ e.asked <= e.limit THEN {s} ELSE {}
      [] e.k = "body" ->
            IF Has(s, e.i) /\ e.ok THEN {s} ELSE {}
      [] e.k = "reply" ->
            (* that's the server *)
            IF Has(s, e.i) /\ s.req[e.i].s = e.s
            THEN {Put(s, e.i, [s.req[e.i] EXCEPT !.ans = @ \cup
                    {[n |-> e.n, status |-> e.status, whole |-> e.whole,
                      to |-> e.to]}])}
            ELSE {s}
      [] e.k = "fin" ->
            IF ~Has(s, e.i) THEN {}
            ELSE LET r == s.req[e.i]
                     A == {a \in r.ans : a.n = e.n /\ a.status = e.status
                                         /\ a.whole}
                     B == {a \in r.ans : a.n = e.n /\ a.status = e.status
                                         /\ MayFollow(r, a)}
                 IN  IF r.pc = "over" THEN {}
                     ELSE IF e.err \/ e.status = 0
                     THEN IF (r.pc = "queued" /\ s.refused)
                             \/ (r.pc = "out" /\ (r.s \in s.bad))
                             \/ (r.pc = "queued" /\ s.bad # {})
                          THEN \* the head of a broken answer is enough
                               IF B = {} THEN
                               {Put(s, e.i, [r EXCEPT !.pc = "over"])}
                               ELSE {Put(s, e.i, [r EXCEPT !.pc = "queued",
                                      !.t = a.to, !.ans = {}]) : a \in B}
                          ELSE {}
                     ELSE IF r.pc # "out" \/ ~e.whole \/ A = {} THEN {}
                     ELSE UNION {IF MayFollow(r, a)
                          THEN {Put(s, e.i, [r EXCEPT !.pc = "queued",
                                             !.t = a.to, !.ans = {}])}
                          ELSE {Put(s, e.i, [r EXCEPT !.pc = "over"])} :
                          a \in A}
      [] e.k = "idle" ->
            IF \A i \in DOMAIN s.req : s.req[i].pc = "over"
            THEN {s} ELSE {}
      [] OTHER -> {}

HWhy(s, e) == IF "i" \in DOMAIN e /\ Has(s, e.i)
              THEN [r |-> s.req[e.i], bad |-> s.bad, socks |-> s.socks] ELSE s
=============================================================================
