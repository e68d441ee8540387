------------------------------- MODULE PipeSeq -------------------------------
(* One thread, calls in sequence: the transitions TLC visits are printed and *)
(* replayed into the code.  Bytes matter to readmatch, so they are letters.  *)
EXTENDS Pipe, TLC, Json

CONSTANTS Max, MaxBuf

VARIABLE s
Datas == {<<97>>, <<13>>, <<10>>, <<97, 13>>, <<13, 10>>, <<97, 98, 13>>}
Ops == {[n |-> "write", d |-> d, mut |-> m] : d \in Datas, m \in BOOLEAN}
       \cup {[n |-> x, k |-> k] : x \in {"read", "readinto"}, k \in {1, 2, 5}}
       \cup {[n |-> "readmatch", m |-> <<13, 10>>]}
       \cup {[n |-> x] : x \in {"canwrite", "canread", "empty", "buffered",
                                "rflag", "flush", "write_eof", "readall", "close"}}
       \cup {[n |-> x, t |-> 10] : x \in {"write_wait", "read_wait", "flush_wait"}}

Say(v) == PrintT("@" \o ToJson(v))
Key(x) == [buf |-> x.buf, eof |-> x.eof, closed |-> x.closed, rf |-> x.rf,
           rb |-> x.rb, wb |-> x.wb]

Init == /\ \E rb, wb \in BOOLEAN : s = PipeState(Max, 50, rb, wb, {1})
        /\ Say([init |-> Key(s)])

Next == \E op \in Ops :
          /\ ~s.closed
          /\ LET E == Effect(s, op) IN
             IF E = {} THEN /\ Say([a |-> Key(s), op |-> op, b |-> Key(s)])
                            /\ s' = s
             ELSE \E o \in E : /\ Len(o.s.buf) <= MaxBuf
                               /\ Say([a |-> Key(s), op |-> op, b |-> Key(o.s)])
                               /\ s' = o.s
=============================================================================
