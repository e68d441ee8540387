-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* pyslet.streams.Pipe: a byte queue between threads.                       *)
(*                                                                          *)
(* A call is three steps: invocation, one atomic effect (the linearization  *)
(* point, under the pipe's lock in the code) and return.  A blocked call is *)
(* one whose effect is not enabled.  Deliberate details of the code that    *)
(* are part of its documentation: write() of an immutable string is         *)
(* accepted whole if there is any room, of a bytearray only up to the room; *)
(* read() may return less than asked for but at least one byte; the reader  *)
(* flag is set by every reader and cleared by canwrite() = 0.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b

\* state: buf, eof, closed, rb, wb, rf, max, tmo (ms; 0 = none), pend
PipeState(max, tmo, rb, wb, threads) ==
    [buf |-> <<>>, eof |-> FALSE, closed |-> FALSE, rb |-> rb, wb |-> wb,
     rf |-> FALSE, max |-> max, tmo |-> tmo,
     pend |-> [t \in threads |-> [st |-> "idle"]]]

Room(s) == IF Len(s.buf) >= s.max THEN 0 ELSE s.max - Len(s.buf)

Prefix(q, n) == SubSeq(q, 1, n)
Drop(q, n) == SubSeq(q, n + 1, Len(q))

IsMatchAt(q, m, i) == i + Len(m) - 1 <= Len(q) /\ SubSeq(q, i, i + Len(m) - 1) = m
MatchEnds(q, m) == {i + Len(m) - 1 : i \in {j \in 1..Len(q) : IsMatchAt(q, m, j)}}
FirstMatch(q, m) == LET E == MatchEnds(q, m) IN
                    IF E = {} THEN 0 ELSE CHOOSE e \in E : \A f \in E : e <= f

OK(v) == [r |-> "ok", v |-> v]
Bytes(b) == [r |-> "bytes", v |-> b]
None == [r |-> "none"]
Err(c) == [r |-> "err", v |-> c]

Out(s, res) == {[s |-> s, res |-> res]}

(***************************************************************************)
(* The effect of operation op in s: the set of [s, res] outcomes.  Empty    *)
(* iff the call must wait.                                                  *)
(***************************************************************************)
ReadOutcomes(s, n) ==
    IF s.buf # <<>> THEN
        {[s |-> [s EXCEPT !.buf = Drop(s.buf, k), !.rf = TRUE],
          res |-> Bytes(Prefix(s.buf, k))] : k \in 1..Min(n, Len(s.buf))}
    ELSE IF s.eof THEN
        Out([s EXCEPT !.rf = TRUE], Bytes(<<>>)) \cup
        (IF s.closed THEN Out(s, Err("closed")) ELSE {})
    ELSE IF ~s.rb THEN Out([s EXCEPT !.rf = TRUE], None)
    ELSE {}

CanWrite(s) ==
    IF s.closed \/ s.eof THEN Out(s, Err("EPIPE"))
    ELSE Out(IF Room(s) = 0 THEN [s EXCEPT !.rf = FALSE] ELSE s, OK(Room(s)))

CanRead(s) ==
    IF s.closed THEN Out(s, Err("EPIPE"))
    ELSE Out(s, OK(IF s.buf # <<>> \/ s.eof THEN 1 ELSE 0))

Effect(s, op) ==
    CASE op.n = "write" ->
            IF s.closed \/ s.eof THEN Out(s, Err("EPIPE"))
            ELSE IF Room(s) > 0 THEN
                LET k == IF op.mut THEN Min(Len(op.d), Room(s)) ELSE Len(op.d)
                IN Out([s EXCEPT !.buf = @ \o Prefix(op.d, k)], OK(k))
            ELSE IF ~s.wb THEN Out(s, None)
            ELSE {}
      [] op.n \in {"read", "readinto"} -> ReadOutcomes(s, op.k)
      [] op.n = "readall" ->
            IF s.eof THEN Out([s EXCEPT !.buf = <<>>, !.rf = TRUE], Bytes(s.buf))
            ELSE {}
      [] op.n = "readmatch" ->
            LET e == FirstMatch(s.buf, op.m) IN
            IF e > 0 THEN Out([s EXCEPT !.buf = Drop(s.buf, e), !.rf = TRUE],
                              Bytes(Prefix(s.buf, e)))
            ELSE IF s.eof THEN {[s |-> [s EXCEPT !.rf = f], res |-> Bytes(<<>>)]
                                  : f \in BOOLEAN}
            ELSE IF Room(s) = 0 THEN
                {[s |-> [s EXCEPT !.rf = f], res |-> Err("ENOBUFS")] : f \in BOOLEAN}
            ELSE IF ~s.rb THEN Out([s EXCEPT !.rf = TRUE], None)
            ELSE {}
      [] op.n = "write_eof" -> Out([s EXCEPT !.eof = TRUE], OK(0))
      [] op.n = "close" ->
            Out([s EXCEPT !.buf = <<>>, !.eof = TRUE, !.closed = TRUE,
                          !.rf = TRUE], OK(0))
      [] op.n = "flush" ->
            IF s.buf = <<>> THEN Out(s, OK(0))
            ELSE IF ~s.wb THEN Out(s, Err("EWOULDBLOCK"))
            ELSE {}
      [] op.n = "canwrite" -> CanWrite(s)
      [] op.n = "canread" -> CanRead(s)
      [] op.n = "empty" -> Out(s, OK(IF s.buf = <<>> THEN 1 ELSE 0))
      [] op.n = "buffered" -> Out(s, OK(Len(s.buf)))
      [] op.n = "rflag" -> Out(s, OK(IF s.rf THEN 1 ELSE 0))
      [] op.n = "set_rb" -> Out([s EXCEPT !.rb = op.b], OK(0))
      [] op.n = "set_wb" -> Out([s EXCEPT !.wb = op.b], OK(0))
      [] op.n = "write_wait" ->
            IF s.closed \/ s.eof THEN Out(s, Err("EPIPE"))
            ELSE IF Room(s) > 0 THEN Out(s, OK(0)) ELSE {}
      [] op.n = "read_wait" ->
            IF s.closed THEN Out(s, Err("EPIPE"))
            ELSE IF s.buf # <<>> \/ s.eof THEN Out(s, OK(0)) ELSE {}
      [] op.n = "flush_wait" -> IF s.buf = <<>> THEN Out(s, OK(0)) ELSE {}

\* the time limit (ms) that applies to a blocked call; 0 = none
Limit(s, op) ==
    IF op.n \in {"write_wait", "read_wait", "flush_wait"} THEN op.t
    ELSE IF op.n = "readall" THEN s.tmo
    ELSE s.tmo

HasLimit(s, op) ==
    \/ op.n \in {"write_wait", "read_wait", "flush_wait"}
    \/ s.tmo > 0

(***************************************************************************)
(* Steps of a call by thread t                                              *)
(***************************************************************************)
Invoke(s, t, op, now) ==
    IF s.pend[t].st # "idle" THEN {}
    ELSE {[s EXCEPT !.pend[t] = [st |-> "wait", op |-> op, since |-> now,
                                 acc |-> <<>>]]}

\* the effect of t's pending call
Effects(s, t) ==
    IF s.pend[t].st # "wait" THEN {}
    ELSE LET p == s.pend[t] IN
         {[o.s EXCEPT !.pend[t] =
             [st |-> "done", op |-> p.op, since |-> p.since,
              res |-> IF p.op.n = "readall" /\ o.res.r = "bytes"
                      THEN Bytes(p.acc \o o.res.v) ELSE o.res]]
            : o \in Effect(s, p.op)}
         \cup \* readall consumes what there is while it waits for EOF
         (IF p.op.n = "readall" /\ s.buf # <<>> /\ ~s.eof
          THEN {[s EXCEPT !.buf = <<>>, !.rf = TRUE,
                          !.pend[t].acc = p.acc \o s.buf]}
          ELSE {})
         \cup \* close gives EOF to the others before the pipe counts as closed
         (IF p.op.n = "close" /\ ~s.eof
          THEN {[s EXCEPT !.buf = <<>>, !.eof = TRUE]} ELSE {})
         \cup
         (IF p.op.n = "close" /\ s.buf # <<>>
          THEN {[s EXCEPT !.buf = <<>>, !.eof = TRUE]} ELSE {})
         \cup \* a waiting reader raises the flag, a waiting writer lowers it
         (IF p.op.n \in {"read", "readinto", "readall", "readmatch"} /\ ~s.rf
          THEN {[s EXCEPT !.rf = TRUE]} ELSE {})
         \cup
         (IF p.op.n = "write_wait" /\ Room(s) = 0 /\ s.rf
          THEN {[s EXCEPT !.rf = FALSE]} ELSE {})

RECURSIVE Closure(_, _)
Closure(S, T) ==
    LET N == S \cup UNION {UNION {Effects(s, t) : t \in T} : s \in S}
    IN IF N = S THEN S ELSE Closure(N, T)

Threads(s) == DOMAIN s.pend

TimedOut(s, t, now) ==
    /\ s.pend[t].st = "wait"
    /\ HasLimit(s, s.pend[t].op)
    /\ now >= s.pend[t].since + Limit(s, s.pend[t].op)
    \* bytes readall has taken are lost with the exception: documented
    \* behaviour is to block, so a time out is only possible after none

Return(s, t, res, now) ==
    IF res = Err("ETIMEDOUT")
    THEN IF TimedOut(s, t, now)
         THEN {[s EXCEPT !.pend[t] = [st |-> "idle"]]} ELSE {}
    ELSE IF s.pend[t].st = "done" /\ s.pend[t].res = res
         THEN {[s EXCEPT !.pend[t] = [st |-> "idle"]]} ELSE {}

\* no pending call could proceed
Stuck(s) == \A t \in Threads(s) :
               s.pend[t].st = "wait" => Effect(s, s.pend[t].op) = {}

=============================================================================
