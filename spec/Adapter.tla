------------------------------- MODULE Adapter -------------------------------
(***************************************************************************)
(* Stream adapters: pyslet.streams.BufferedStreamWrapper ("buff") and, from *)
(* pyslet.http.messages, WSGIInputWrapper ("wsgi"), ChunkedReader ("chunk"),*)
(* GzipEncoder ("zip") and GzipDecoder ("unzip").                           *)
(*                                                                          *)
(* A reader is a position in the (decoded) bytes of its source.  How the    *)
(* source is cut up (short reads, blocked reads, chunks) may change how     *)
(* much one call returns but not what is returned.                          *)
(*                                                                          *)
(*  c.data   the bytes the adapter has to deliver                           *)
(*  c.size   size of the look-ahead buffer                                  *)
(*  c.len    Content-Length, -1 if unknown                                  *)
(*  c.block  the source may have nothing for now                            *)
(*  c.trunc  the source ends before it should (chunked)                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Rest(c, pos) == IF pos >= Len(c.data) THEN <<>>
                ELSE SubSeq(c.data, pos + 1, Len(c.data))
Take(q, n) == SubSeq(q, 1, Min(n, Len(q)))

Bytes(q) == [r |-> "bytes", v |-> q]
None == [r |-> "none"]
Err == [r |-> "err"]
Ok(n) == [r |-> "ok", v |-> n]

(* s: [c, pos, seek (TRUE if the wrapper claims the whole of the source)]   *)
Seekable(s) ==
    CASE s.c.kind = "buff" -> s.seek
      [] s.c.kind = "wsgi" -> s.pos <= Min(s.c.size, Len(s.c.data))
      [] OTHER -> FALSE

(* whether the buffered wrapper may, or must, be seekable *)
MayBuffer(c) == Len(c.data) < c.size
MustBuffer(c) == MayBuffer(c) /\ ~c.block

(* The possible outcomes of an operation: pairs of result and new position. *)
(* Reads may be short, so every length is listed.                           *)
Blocked(s) == s.c.block /\ ~Seekable(s)

ReadResults(s, k) ==
    LET q == Rest(s.c, s.pos) IN
    IF k = 0 THEN {<<Bytes(<<>>), s.pos>>}
    ELSE IF q = <<>> THEN {<<Bytes(<<>>), s.pos>>}
    ELSE {<<Bytes(Take(q, n)), s.pos + n>> : n \in 1..Min(k, Len(q))}

ReadAll(s) ==
    LET q == Rest(s.c, s.pos) IN
    IF ~Blocked(s) THEN {<<Bytes(q), s.pos + Len(q)>>}
    ELSE {<<Bytes(Take(q, n)), s.pos + n>> : n \in 0..Len(q)}

Errors(s) == IF s.c.trunc THEN {<<Err, s.pos>>} ELSE {}
Nones(s) == IF Blocked(s) THEN {<<None, s.pos>>} ELSE {}

Peeks(s, k) ==
    LET q == Rest(s.c, s.pos) IN
    {<<Bytes(Take(q, n)), s.pos>> :
        n \in (IF Seekable(s) /\ k > 0 /\ q # <<>> THEN 1 ELSE 0)
              .. Min(k, Len(q))}

Target(s, o, w) ==
    CASE w = 0 -> o
      [] w = 1 -> s.pos + o
      [] OTHER -> IF s.c.kind = "wsgi" THEN s.c.len + o
                  ELSE Len(s.c.data) + o

Seeks(s, o, w) ==
    IF \/ ~Seekable(s)
       \/ w = 2 /\ s.c.kind = "wsgi" /\ s.c.len < 0
       \/ Target(s, o, w) < 0
    THEN {<<Err, s.pos>>}
    ELSE {<<Ok(0), Target(s, o, w)>>}

Eol(q) == {i \in 1..Len(q) : q[i] = 10}
Lines(s) ==
    LET q == Rest(s.c, s.pos)
        n == IF Eol(q) = {} THEN Len(q)
             ELSE CHOOSE i \in Eol(q) : \A j \in Eol(q) : i <= j
    IN {<<Bytes(Take(q, n)), s.pos + n>>}

\* a wrapper that reads ahead may meet the missing end early
Early(s) == IF s.c.kind = "wsgi" THEN Errors(s) ELSE {}

Outcomes(s, op) ==
    Early(s) \cup
    CASE op.n = "read" -> ReadResults(s, op.k) \cup Nones(s) \cup
                          (IF Rest(s.c, s.pos) = <<>> THEN Errors(s) ELSE {})
      [] op.n = "readall" -> ReadAll(s) \cup Nones(s) \cup Errors(s)
      [] op.n = "peek" -> Peeks(s, op.k)
      [] op.n = "seek" -> Seeks(s, op.o, op.w)
      [] op.n = "readline" -> Lines(s)
      [] op.n = "seekable" ->
            {<<Ok(IF Seekable(s) THEN 1 ELSE 0), s.pos>>}
      [] op.n = "tell" ->
            {<<IF s.c.kind = "buff" /\ ~Seekable(s) THEN Err
               ELSE Ok(s.pos), s.pos>>}
=============================================================================
