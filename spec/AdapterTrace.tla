----------------------------- MODULE AdapterTrace -----------------------------
(* Validates recorded uses of the stream adapters *)
EXTENDS TraceCheck, Adapter

AInit(cfg) == {[c |-> cfg, pos |-> 0, seek |-> FALSE, end |-> FALSE,
                out |-> <<>>, in |-> 0]}

Encodes(c) == c.kind \in {"zip", "unzip"}

(* gzip: the encoded bytes are opaque, e.out is what decoding makes of all  *)
(* that has been read (zip) or what the destination has received (unzip)    *)
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = Take(b, Len(a))

ZStep(s, e) ==
    CASE e.k = "read" ->          \* e.n asked for, e.got delivered, -1: None
            IF \/ e.got = -1 /\ s.c.block /\ ~s.end
               \/ e.got = 0 /\ (e.n = 0 \/ s.end \/ e.out = s.c.data)
               \/ e.got > 0 /\ e.got <= e.n /\ ~s.end
            THEN IF IsPrefix(s.out, e.out) /\ IsPrefix(e.out, s.c.data)
                 THEN {[s EXCEPT !.out = e.out,
                                 !.end = s.end \/ (e.got = 0 /\ e.n > 0)]}
                 ELSE {}
            ELSE {}
      [] e.k = "write" ->         \* e.n offered, e.got accepted, -1: blocked
            IF /\ e.got = e.n \/ (e.got = -1 /\ s.c.block)
               /\ IsPrefix(s.out, e.out) /\ IsPrefix(e.out, s.c.data)
            THEN {[s EXCEPT !.out = e.out, !.in = s.in + (IF e.got > 0
                                                  THEN e.got ELSE 0)]}
            ELSE {}
      [] e.k = "flush" ->
            IF /\ IsPrefix(s.out, e.out) /\ IsPrefix(e.out, s.c.data)
               /\ \/ e.res = "ok" /\ e.out = s.c.data
                  \/ e.res = "blocked" /\ s.c.block
            THEN {[s EXCEPT !.out = e.out]} ELSE {}
      [] OTHER -> {}

AStep(s, e) ==
    IF Encodes(s.c) THEN ZStep(s, e)
    ELSE CASE e.k = "open" ->
                IF /\ e.seek => MayBuffer(s.c)
                   /\ MustBuffer(s.c) => e.seek
                   /\ e.len = (IF e.seek THEN Len(s.c.data) ELSE -1)
                THEN {[s EXCEPT !.seek = e.seek]} ELSE {}
           [] e.k = "op" ->
                {[s EXCEPT !.pos = r[2],
                           !.end = s.end \/
                             (/\ e.op.n \in {"read", "readall"}
                              /\ r[1] = Bytes(<<>>)
                              /\ Rest(s.c, s.pos) = <<>>)] :
                   r \in {x \in Outcomes(s, e.op) : x[1] = e.res}}
           [] e.k = "source" ->
                \* what is left of the source: what follows the body must
                \* still be there; all of it once the end has been read
                IF /\ e.after = e.follow
                   /\ s.c.kind = "chunk" /\ s.end => e.left = e.follow
                THEN {s} ELSE {}
           [] OTHER -> {}

AWhy(s, e) == IF Encodes(s.c) THEN <<s.out, s.end>>
              ELSE IF e.k = "op" THEN <<s.pos, Outcomes(s, e.op)>>
              ELSE <<s.pos, s.seek, s.end>>
=============================================================================
