----------------------------- MODULE HTTPClient -----------------------------
(* One thread of an HTTP/1.1 client that pipelines requests to one server.  *)
(* A connection carries requests in order; answers come back in order.  The *)
(* server may drop a connection at any time, having acted on any number of  *)
(* the requests it was sent.                                                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Requests,     \* 1..n, queued in this order
          Posts,        \* those that are not idempotent
          Lives,        \* how often a request may be sent
          Drops         \* how often the server drops a connection

(* todo: requests still to be sent.  wire: sent, not yet seen by the server *)
(* back: answers under way.  out: sent, not yet answered.                   *)
VARIABLES todo, wire, back, out, alive, drops, sent, acted, result

vars == <<todo, wire, back, out, alive, drops, sent, acted, result>>

N == Cardinality(Requests)
Idempotent(i) == i \notin Posts

Init ==
    /\ todo = [i \in 1..N |-> i] /\ wire = <<>> /\ back = <<>> /\ out = <<>>
    /\ alive = TRUE /\ drops = 0
    /\ sent = [i \in Requests |-> 0] /\ acted = [i \in Requests |-> 0]
    /\ result = [i \in Requests |-> 0]

(* a request that isn't idempotent waits for the answers to those before it *)
Send ==
    /\ todo # <<>> /\ (Idempotent(Head(todo)) \/ out = <<>>)
    /\ LET i == Head(todo)
       IN  /\ todo' = Tail(todo) /\ out' = Append(out, i)
           /\ wire' = IF alive THEN Append(wire, i) ELSE wire
           /\ sent' = [sent EXCEPT ![i] = @ + 1]
    /\ UNCHANGED <<back, alive, drops, acted, result>>

Act ==
    /\ wire # <<>>
    /\ LET i == Head(wire)
       IN  /\ acted' = [acted EXCEPT ![i] = @ + 1]
           /\ back' = Append(back, i)
    /\ wire' = Tail(wire)
    /\ UNCHANGED <<todo, out, alive, drops, sent, result>>

(* the server goes away, any of its answers may be lost *)
Drop ==
    /\ alive /\ drops < Drops
    /\ alive' = FALSE /\ drops' = drops + 1 /\ wire' = <<>>
    /\ \E k \in 0..Len(back) : back' = SubSeq(back, 1, k)
    /\ UNCHANGED <<todo, out, sent, acted, result>>

(* the answer belongs to the oldest request not yet answered *)
Read ==
    /\ back # <<>>
    /\ result' = [result EXCEPT ![Head(out)] = Head(back)]
    /\ back' = Tail(back) /\ out' = Tail(out)
    /\ UNCHANGED <<todo, wire, alive, drops, sent, acted>>

Retry(i) == Idempotent(i) /\ sent[i] < Lives

RECURSIVE Again(_)
Again(q) ==
    IF q = <<>> THEN <<>>
    ELSE (IF Retry(Head(q)) THEN <<Head(q)>> ELSE <<>>) \o Again(Tail(q))

(* the client finds the connection closed *)
Notice ==
    /\ ~alive /\ back = <<>> /\ out # <<>>
    /\ todo' = todo \o Again(out)
    /\ result' = [i \in Requests |->
            IF (\E k \in 1..Len(out) : out[k] = i) /\ ~Retry(i)
            THEN 0 - 1 ELSE result[i]]
    /\ out' = <<>> /\ alive' = TRUE
    /\ UNCHANGED <<wire, back, drops, sent, acted>>

Next == Send \/ Act \/ Drop \/ Read \/ Notice
Spec == Init /\ [][Next]_vars /\ WF_vars(Send) /\ WF_vars(Act)
             /\ WF_vars(Read) /\ WF_vars(Notice)

-----------------------------------------------------------------------------
Matched == \A i \in Requests : result[i] \in {0, 0 - 1, i}
Once == \A i \in Posts : acted[i] <= 1
(* nothing is failed for no reason *)
Healthy == drops = 0 => \A i \in Requests : result[i] # 0 - 1
InOrder == Len(back) <= Len(out) /\ \A k \in 1..Len(back) : back[k] = out[k]
Settled == \A i \in Requests : result[i] # 0
Ends == <>[]Settled
(* once settled, for ever *)
Final == [][\A i \in Requests :
            result[i] # 0 => result'[i] = result[i]]_vars
=============================================================================
