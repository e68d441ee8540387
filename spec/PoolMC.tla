------------------------------- MODULE PoolMC -------------------------------
(* The pool's design: one lock over three tables (locked, by thread;        *)
(* unlocked, by last user; idle) and a count; the driver is called with the *)
(* lock free.  Every event a user could see is judged by Pool.              *)
EXTENDS Pool, Json

CONSTANTS Threads, Max, TS, MaxConn,
          NotifyDead,   \* the cleaner wakes a waiter for each it closes
          CountDead,    \* ... and lets them be replaced
          UndoOpen,     \* a failed open gives up its place
          WakeShut      \* closing wakes those who wait

VARIABLES s,         \* the users' view (Pool)
          bad,       \* an event was not allowed
          locked,    \* [thread -> [c, n]] or <<>>
          free,      \* set of <<thread, c>>
          idle,      \* set of c
          size, queue, pc, next, shut

vars == <<s, bad, locked, free, idle, size, queue, pc, next, shut>>

Ids == <<"c1", "c2", "c3", "c4", "c5", "c6">>
None == ""

Init == /\ s = Pool0(Max, TS, Threads) /\ bad = FALSE
        /\ locked = [t \in Threads |-> <<None, 0>>]
        /\ free = {} /\ idle = {} /\ size = 0 /\ queue = <<>>
        /\ pc = [t \in Threads |-> <<"run", None>>] /\ next = 1
        /\ shut = FALSE

RECURSIVE Feed(_, _)
Feed(S, es) == IF es = <<>> \/ S = {} THEN S
               ELSE Feed(UNION {PoolStep(x, Head(es)) : x \in S}, Tail(es))

See(es) == LET S == Feed({s}, es) IN
           IF S = {} THEN s' = s /\ bad' = TRUE
           ELSE s' = (CHOOSE x \in S : TRUE) /\ bad' = bad

Ev(k, t, c) == [k |-> k, t |-> t, c |-> c, now |-> 0, to |-> -1]

Alive(t) == s.th[t].in # "dead"
Running(t) == pc[t] = <<"run", None>> /\ Alive(t)
Say(op) == PrintT("@" \o ToJson([a |-> <<s, locked, free, idle, queue, pc>>,
        op |-> op, b |-> <<s', locked', free', idle', queue', pc'>>]))

RemoveFrom(q, t) == SelectSeq(q, LAMBDA x : x # t)

(* the loop of acquire_connection, under the lock, for t *)
Take(t, es, q) ==
    LET mine == {x \in free : x[1] = t}
        Lock(c) == locked' = [locked EXCEPT ![t] = <<c, 1>>]
        Keep == UNCHANGED <<size, next>>
        Got(c) == /\ Lock(c) /\ pc' = [pc EXCEPT ![t] = <<"run", None>>]
                  /\ queue' = q /\ See(es \o <<Ev("got", t, c)>>) /\ Keep
    IN
    IF mine # {} THEN
        LET x == CHOOSE y \in mine : TRUE IN
        /\ free' = free \ {x} /\ idle' = idle /\ Got(x[2])
    ELSE IF idle # {} THEN
        \E c \in idle : idle' = idle \ {c} /\ free' = free /\ Got(c)
    ELSE IF size < Max THEN
        /\ next <= MaxConn /\ size' = size + 1 /\ next' = next + 1
        /\ Lock(Ids[next]) /\ pc' = [pc EXCEPT ![t] = <<"open", Ids[next]>>]
        /\ queue' = q /\ See(es \o <<Ev("open", t, Ids[next])>>)
        /\ UNCHANGED <<free, idle>>
    ELSE IF free # {} THEN
        \E x \in free :
            /\ free' = free \ {x} /\ idle' = idle
            /\ IF TS > 1 THEN Got(x[2])
               ELSE /\ next <= MaxConn /\ size' = size /\ next' = next + 1
                    /\ Lock(Ids[next]) /\ queue' = q
                    /\ pc' = [pc EXCEPT ![t] = <<"open", Ids[next]>>]
                    /\ See(es \o <<Ev("close", t, x[2]), Ev("closed", t, x[2]),
                                   Ev("open", t, Ids[next])>>)
    ELSE /\ queue' = Append(q, t) /\ pc' = [pc EXCEPT ![t] = <<"wait", None>>]
         /\ See(es) /\ UNCHANGED <<locked, free, idle>> /\ Keep

Acquire(t) ==
    /\ Running(t) /\ locked[t][2] < 2
    /\ LET es == <<Ev("acq", t, None)>> IN
       IF shut THEN /\ See(es \o <<Ev("none", t, None)>>)
                    /\ UNCHANGED <<locked, free, idle, size, queue, pc, next>>
       ELSE IF locked[t][2] > 0 THEN
            /\ locked' = [locked EXCEPT ![t][2] = @ + 1]
            /\ See(es \o <<Ev("got", t, locked[t][1])>>)
            /\ UNCHANGED <<free, idle, size, queue, pc, next>>
       ELSE Take(t, es, queue)
    /\ UNCHANGED shut
    /\ Say([n |-> "acq", t |-> t])

(* the head of the queue is woken *)
Woken(q) == IF q = <<>> THEN {} ELSE {Head(q)}
Wake(p, T) == [u \in Threads |-> IF u \in T THEN <<"woken", None>> ELSE p[u]]
Notify(p) == IF shut /\ WakeShut
             THEN /\ pc' = Wake(p, {queue[i] : i \in DOMAIN queue})
                  /\ queue' = <<>>
             ELSE /\ pc' = Wake(p, Woken(queue))
                  /\ queue' = IF queue = <<>> THEN queue ELSE Tail(queue)

Resume(t) ==
    /\ pc[t][1] = "woken"
    /\ IF shut /\ WakeShut
       THEN /\ See(<<Ev("none", t, None)>>)
            /\ pc' = [pc EXCEPT ![t] = <<"run", None>>]
            /\ UNCHANGED <<locked, free, idle, size, queue, next>>
       ELSE Take(t, <<>>, queue)
    /\ UNCHANGED shut
    /\ Say([n |-> "resume", t |-> t])

Opened(t) ==
    /\ pc[t][1] = "open"
    /\ See(<<Ev("opened", t, pc[t][2]), Ev("got", t, pc[t][2])>>)
    /\ pc' = [pc EXCEPT ![t] = <<"run", None>>]
    /\ UNCHANGED <<locked, free, idle, size, queue, next, shut>>
    /\ Say([n |-> "opened", t |-> t])

OpenFails(t) ==
    /\ pc[t][1] = "open"
    /\ See(<<Ev("openfail", t, pc[t][2]), Ev("raise", t, None)>>)
    /\ IF UndoOpen
       THEN /\ locked' = [locked EXCEPT ![t] = <<None, 0>>]
            /\ size' = size - 1
            /\ Notify([pc EXCEPT ![t] = <<"run", None>>])
       ELSE /\ pc' = [pc EXCEPT ![t] = <<"run", None>>]
            /\ UNCHANGED <<locked, size, queue>>
    /\ UNCHANGED <<free, idle, next, shut>>
    /\ Say([n |-> "openfail", t |-> t])

Release(t) ==
    /\ Running(t) /\ locked[t][2] > 0
    /\ See(<<Ev("rel", t, locked[t][1])>>)
    /\ IF locked[t][2] = 1
       THEN /\ locked' = [locked EXCEPT ![t] = <<None, 0>>]
            /\ free' = free \cup {<<t, locked[t][1]>>}
            /\ Notify(pc)
       ELSE /\ locked' = [locked EXCEPT ![t][2] = @ - 1]
            /\ UNCHANGED <<free, pc, queue>>
    /\ UNCHANGED <<idle, size, next, shut>>
    /\ Say([n |-> "rel", t |-> t])

Die(t) ==
    /\ Running(t) /\ \E u \in Threads \ {t} : Alive(u)
    /\ See(<<Ev("die", t, None)>>)
    /\ UNCHANGED <<locked, free, idle, size, queue, pc, next, shut>>
    /\ Say([n |-> "die", t |-> t])

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

CloseAll(t, C) ==
    LET q == SetSeq(C) IN
    [i \in 1..(2 * Len(q)) |-> Ev(IF i % 2 = 1 THEN "close" ELSE "closed", t,
                                  q[(i + 1) \div 2])]

Clean(t) ==
    /\ Running(t)
    /\ LET lost == {u \in Threads : ~Alive(u) /\ locked[u][2] > 0}
           C == {locked[u][1] : u \in lost}
           gone == {x \in free : ~Alive(x[1])} IN
       /\ See(<<[Ev("clean", t, None) EXCEPT !.to = 9]>> \o CloseAll(t, C)
              \o <<Ev("cleaned", t, None)>>)
       /\ locked' = [u \in Threads |-> IF u \in lost THEN <<None, 0>>
                                      ELSE locked[u]]
       /\ free' = free \ gone
       /\ idle' = idle \cup {x[2] : x \in gone}
       /\ size' = IF CountDead THEN size - Cardinality(C) ELSE size
       /\ IF NotifyDead /\ C # {}
          THEN /\ pc' = Wake(pc, {queue[i] : i \in DOMAIN queue})
               /\ queue' = <<>>
          ELSE UNCHANGED <<pc, queue>>
    /\ UNCHANGED <<next, shut>>
    /\ Say([n |-> "clean", t |-> t])

(* closing, when nothing is held by another: no waiting *)
Shut(t) ==
    /\ Running(t) /\ ~shut
    /\ \A u \in Threads \ {t} : locked[u][2] = 0 \/ ~Alive(u)
    /\ LET C == {x[2] : x \in free} \cup idle \cup
                {locked[u][1] : u \in {v \in Threads : locked[v][2] > 0}} IN
       See(<<Ev("shut", t, None)>> \o CloseAll(t, C)
           \o <<Ev("shutdone", t, None)>>)
    /\ shut' = TRUE /\ free' = {} /\ idle' = {}
    /\ locked' = [u \in Threads |-> <<None, 0>>]
    /\ IF WakeShut
       THEN /\ pc' = Wake(pc, {queue[i] : i \in DOMAIN queue})
            /\ queue' = <<>>
       ELSE UNCHANGED <<pc, queue>>
    /\ UNCHANGED <<size, next>>
    /\ Say([n |-> "shut", t |-> t])

Next == \E t \in Threads : \/ Acquire(t) \/ Resume(t) \/ Opened(t)
                           \/ OpenFails(t) \/ Release(t) \/ Die(t)
                           \/ Clean(t) \/ Shut(t)

Allowed == ~bad

(* when everyone who can move has moved, nobody waits for nothing *)
Settled == \A t \in Threads : pc[t][1] \in {"run", "wait"}
NobodyWaitsForNothing == Settled => NoneIdle(s)

(* each connection is in one place *)
OnePlace ==
    LET L == {locked[t][1] : t \in {u \in Threads : locked[u][2] > 0}}
        F == {x[2] : x \in free} IN
    /\ L \cap F = {} /\ L \cap idle = {} /\ F \cap idle = {}
    /\ \A t, u \in Threads : t # u /\ locked[t][2] > 0 =>
            locked[t][1] # locked[u][1]
    /\ \A x, y \in free : x # y => x[2] # y[2] /\ x[1] # y[1]

ExportInit == (next = 1 /\ s = Pool0(Max, TS, Threads) /\ ~shut /\
    pc = [t \in Threads |-> <<"run", None>>]) =>
    PrintT("@" \o ToJson([init |-> <<s, locked, free, idle, queue, pc>>]))
=============================================================================
