----------------------------- MODULE StreamStore -----------------------------
(***************************************************************************)
(* pyslet.blockstore.StreamStore and BlockStream: streams are byte arrays.  *)
(* They are kept as numbered references to blocks shared by content, which  *)
(* shows only in that raw reads and writes may be short.                    *)
(*                                                                          *)
(* h: an open handle, [pos, r, w, app]; d: the bytes of its stream.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Zeros(n) == [i \in 1..n |-> 0]
From(q, p) == IF p >= Len(q) THEN <<>> ELSE SubSeq(q, p + 1, Len(q))
Take(q, n) == SubSeq(q, 1, Min(n, Len(q)))

Has(m, ch) == \E i \in 1..Len(m) : m[i] = ch
(* modes are sequences of one-character strings *)
Opened(m, d) ==
    [h |-> [pos |-> IF Has(m, "a") THEN Len(d) ELSE 0,
            r |-> Has(m, "r") \/ Has(m, "+"),
            w |-> Has(m, "w") \/ Has(m, "+") \/ Has(m, "a"),
            app |-> Has(m, "a")],
     d |-> IF Has(m, "w") THEN <<>> ELSE d]

(* the bytes after x is written at p: a gap reads as zeros *)
Put(d, p, x) ==
    IF x = <<>> THEN d
    ELSE Take(d, p) \o Zeros(Max(0, p - Len(d))) \o x \o From(d, p + Len(x))

(* outcomes: [res, h, d] *)
Reads(h, d, k) ==
    LET q == From(d, h.pos) IN
    IF ~h.r THEN {[res |-> [r |-> "err"], h |-> h, d |-> d]}
    ELSE {[res |-> [r |-> "bytes", v |-> Take(q, n)],
           h |-> [h EXCEPT !.pos = @ + n], d |-> d] :
             n \in (IF k = 0 \/ q = <<>> THEN {0} ELSE 1..Min(k, Len(q)))}

(* a handle opened to append may write at the end wherever it points *)
Writes(h, d, x) ==
    IF ~h.w THEN {[res |-> [r |-> "err"], h |-> h, d |-> d]}
    ELSE UNION {{[res |-> [r |-> "ok", v |-> n],
                  h |-> [h EXCEPT !.pos = p + n],
                  d |-> Put(d, p, Take(x, n))] :
                    n \in (IF x = <<>> THEN {0} ELSE 1..Len(x))} :
                 p \in {h.pos} \cup (IF h.app THEN {Len(d)} ELSE {})}

Seeks(h, d, o, w) ==
    LET p == CASE w = 0 -> o [] w = 1 -> h.pos + o [] w = 2 -> Len(d) + o
    IN IF p < 0 THEN {[res |-> [r |-> "err"], h |-> h, d |-> d]}
       ELSE {[res |-> [r |-> "ok", v |-> 0], h |-> [h EXCEPT !.pos = p],
              d |-> d]}

ReadAll(h, d) ==
    IF ~h.r THEN {[res |-> [r |-> "err"], h |-> h, d |-> d]}
    ELSE {[res |-> [r |-> "bytes", v |-> From(d, h.pos)],
           h |-> [h EXCEPT !.pos = Max(@, Len(d))], d |-> d]}

Effects(h, d, op) ==
    CASE op.n = "read" -> Reads(h, d, op.k)
      [] op.n = "readall" -> ReadAll(h, d)
      [] op.n = "write" -> Writes(h, d, op.d)
      [] op.n = "seek" -> Seeks(h, d, op.o, op.w)
      [] op.n = "tell" ->
            {[res |-> [r |-> "ok", v |-> h.pos], h |-> h, d |-> d]}
      [] op.n = "flush" ->
            {[res |-> [r |-> "ok", v |-> 0], h |-> h, d |-> d]}
===============================================================================
