------------------------------ MODULE AdapterMC ------------------------------
(* Explores readers over all short sources; prints the graph for replay.     *)
(* What is delivered between seeks is checked against the source.            *)
EXTENDS Adapter, Json

CONSTANTS MaxLen, Kind, MaxK

VARIABLES s, from, got

vars == <<s, from, got>>

Datas == UNION {[1..n -> {10, 97}] : n \in 0..MaxLen}

Cfgs == {[kind |-> Kind, data |-> d, size |-> z, len |-> l, block |-> FALSE,
          trunc |-> FALSE] :
            d \in Datas, z \in 1..(MaxLen + 1),
            l \in (IF Kind = "wsgi" THEN {-1, 0} ELSE {-1})}

Init == \E c \in Cfgs :
          /\ s = [c |-> [c EXCEPT !.len = IF @ = 0 THEN Len(c.data) ELSE -1],
                  pos |-> 0, seek |-> c.kind = "buff" /\ MayBuffer(c)]
          /\ from = 0 /\ got = <<>>

Ops == {[n |-> "read", k |-> k] : k \in 0..MaxK} \cup
       {[n |-> "readall"], [n |-> "seekable"], [n |-> "tell"]} \cup
       (IF Kind = "buff" THEN {[n |-> "peek", k |-> k] : k \in 0..MaxK}
        ELSE {[n |-> "readline"]}) \cup
       {[n |-> "seek", o |-> o, w |-> w] : o \in -1..(MaxLen + 1), w \in 0..2}

Do(op) == \E r \in Outcomes(s, op) :
            /\ s' = [s EXCEPT !.pos = r[2]]
            /\ IF op.n = "seek" /\ r[1] # Err
               THEN from' = r[2] /\ got' = <<>>
               ELSE /\ from' = from
                    /\ got' = IF r[1].r = "bytes" /\ op.n # "peek"
                              THEN got \o r[1].v ELSE got
            /\ PrintT("@" \o ToJson([a |-> s, op |-> op, b |-> s']))

Next == \E op \in Ops : Do(op)

ExportInit == IF got = <<>> /\ s.pos = 0
              THEN PrintT("@" \o ToJson([init |-> s])) ELSE TRUE

Delivered == /\ got = Take(Rest(s.c, from), Len(got))
             /\ from + Len(got) = s.pos
Within == got # <<>> => s.pos <= Len(s.c.data)
View == s
Near == s.pos <= MaxLen + 1
=============================================================================
