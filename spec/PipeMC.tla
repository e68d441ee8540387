------------------------------- MODULE PipeMC -------------------------------
(* The design of the pipe, explored exhaustively: one writer, one reader,   *)
(* every interleaving of invocation, effect and return.                     *)
EXTENDS Pipe, TLC, Json

CONSTANTS Max, MaxSent, Timeout

W == 1
R == 2
VARIABLES s, sent, rcvd, gotEof, dead
vars == <<s, sent, rcvd, gotEof, dead>>

Init == /\ \E rb, wb \in BOOLEAN : s = PipeState(Max, Timeout, rb, wb, {W, R})
        /\ sent = <<>> /\ rcvd = <<>> /\ gotEof = FALSE /\ dead = FALSE

\* bytes are numbered so that order and duplication are visible
NextBytes(n) == [i \in 1..n |-> Len(sent) + i]

WOps == {[n |-> "write", d |-> NextBytes(k), mut |-> m] :
            k \in 1..Min(2, MaxSent - Len(sent)), m \in BOOLEAN}
        \cup {[n |-> "write_eof"], [n |-> "flush"], [n |-> "canwrite"],
              [n |-> "write_wait", t |-> 1]}
ROps == {[n |-> "read", k |-> k] : k \in 1..2}
        \cup {[n |-> "readall"], [n |-> "canread"], [n |-> "close"],
              [n |-> "readmatch", m |-> <<2>>], [n |-> "read_wait", t |-> 1]}

Inv(t, Ops) == /\ \E op \in Ops : s' \in Invoke(s, t, op, 0)
               /\ UNCHANGED <<sent, rcvd, gotEof, dead>>

Eff(t) ==
    \E s2 \in Effects(s, t) :
        /\ s' = s2
        /\ LET p == s2.pend[t]
               o == s.pend[t].op
           IN IF p.st = "done"
              THEN /\ sent' = IF o.n = "write" /\ p.res.r = "ok"
                              THEN sent \o Prefix(o.d, p.res.v) ELSE sent
                   /\ rcvd' = IF o.n \in {"read", "readall", "readmatch"}
                                   /\ p.res.r = "bytes"
                              THEN rcvd \o p.res.v ELSE rcvd
                   /\ gotEof' = (gotEof \/ (/\ o.n \in {"read", "readall"}
                                             /\ p.res = Bytes(<<>>)))
                   /\ dead' = (dead \/ s2.closed)
              ELSE /\ dead' = (dead \/ o.n = "close")
                   /\ UNCHANGED <<sent, rcvd, gotEof>>

Ret(t) == /\ s.pend[t].st = "done"
          /\ s' = [s EXCEPT !.pend[t] = [st |-> "idle"]]
          /\ UNCHANGED <<sent, rcvd, gotEof, dead>>

Expire(t) == /\ TimedOut(s, t, Timeout + 1)
             /\ Effect(s, s.pend[t].op) = {}
             /\ s.pend[t].op.n # "readall"
             /\ s' = [s EXCEPT !.pend[t] = [st |-> "idle"]]
             /\ UNCHANGED <<sent, rcvd, gotEof, dead>>

Next == \/ Inv(W, WOps) \/ Inv(R, ROps)
        \/ \E t \in {W, R} : Eff(t) \/ Ret(t) \/ Expire(t)

\* the effect that ends the call, or (readall) that takes bytes
Ends(t) == Eff(t) /\ (s'.pend[t].st = "done" \/ s'.buf # s.buf)
\* strong: the flag a waiting reader raises may be lowered again for ever
Fair == \A t \in {W, R} : SF_vars(Ends(t)) /\ WF_vars(Ret(t))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

Acc(t) == IF s.pend[t].st = "wait" /\ s.pend[t].op.n = "readall"
          THEN s.pend[t].acc ELSE <<>>

\* every accepted byte is received once, in order, unless the reader closed
Fifo == ~dead => rcvd \o Acc(R) \o s.buf = sent
Numbered == \A i \in 1..Len(sent) : sent[i] = i
EofLast == gotEof => (s.eof /\ (dead \/ rcvd = sent))
RoomRight == Room(s) = IF Len(s.buf) >= Max THEN 0 ELSE Max - Len(s.buf)
\* a call waits only for the other side
BlockedRight == \A t \in {W, R} : s.pend[t].st = "wait" /\ Effect(s, s.pend[t].op) = {} =>
      \/ s.pend[t].op.n = "write" /\ Len(s.buf) >= Max
      \/ s.pend[t].op.n = "write_wait" /\ Len(s.buf) >= Max
      \/ s.pend[t].op.n = "flush" /\ s.buf # <<>>
      \/ s.pend[t].op.n \in {"read", "readall", "read_wait", "readmatch"} /\ ~s.eof
\* once EOF has been written (or the pipe closed) no read waits for ever
ReadsEnd == (s.pend[R].st = "wait" /\ s.eof) ~> (s.pend[R].st # "wait")
WritesEnd == (s.pend[W].st = "wait" /\ s.closed) ~> (s.pend[W].st # "wait")
=============================================================================
