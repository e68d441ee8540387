------------------------------- MODULE StreamMC -------------------------------
(* Explores one stream opened again and again; prints the graph, with the     *)
(* bytes left out of the state, for replay.  Checked: a written byte is read  *)
(* back until it is overwritten or truncated away.                            *)
EXTENDS StreamStore, Json

CONSTANTS B, MaxSize

VARIABLES h, d, open, mode

vars == <<h, d, open, mode>>

Modes == {<<"r">>, <<"w">>, <<"a">>, <<"r", "+">>, <<"w", "+">>, <<"a", "+">>}

St == [open |-> open, mode |-> mode, size |-> Len(d),
       pos |-> IF open THEN h.pos ELSE 0]

Init == /\ d = <<>> /\ open = FALSE /\ mode = <<>>
        /\ h = [pos |-> 0, r |-> FALSE, w |-> FALSE, app |-> FALSE]

Say(op) == PrintT("@" \o ToJson([a |-> St, op |-> op, b |-> St']))

Open(m) == /\ ~open /\ open' = TRUE /\ mode' = m
           /\ LET o == Opened(m, d) IN h' = o.h /\ d' = o.d
           /\ Say([n |-> "open", m |-> m])

Close == /\ open /\ open' = FALSE /\ UNCHANGED <<h, d>> /\ mode' = <<>>
         /\ Say([n |-> "close"])

\* raw calls stop at the end of a block
Short(k) == Min(k, B - (h.pos % B))

Ops == {[n |-> "read", k |-> k] : k \in 1..2} \cup
       {[n |-> "write", d |-> [i \in 1..Short(k) |-> 1]] : k \in 1..(B + 1)} \cup
       {[n |-> "seek", o |-> o, w |-> 0] : o \in 0..(MaxSize + 1)} \cup
       {[n |-> "flush"]}

Do(op) ==
    /\ open
    /\ \E e \in Effects(h, d, op) :
          /\ op.n = "write" /\ h.w => e.res.v = Len(op.d)
          /\ h' = e.h /\ d' = e.d
    /\ Len(d') <= MaxSize
    /\ UNCHANGED <<open, mode>>
    /\ Say(op)

Next == Close \/ (\E m \in Modes : Open(m)) \/ \E op \in Ops : Do(op)

ExportInit == IF St = [open |-> FALSE, mode |-> <<>>, size |-> 0, pos |-> 0]
              THEN PrintT("@" \o ToJson([init |-> St])) ELSE TRUE
View == St
ReadOnly == [][(open /\ ~h.w /\ open') => d' = d]_vars
Grows == [][(open /\ open') => Len(d') >= Len(d)]_vars
=============================================================================
