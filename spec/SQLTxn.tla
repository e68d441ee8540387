------------------------------ MODULE SQLTxn ------------------------------
(***************************************************************************)
(* How sqlds builds an operation out of SQL statements: transaction         *)
(* objects, nested in one another or started afresh on the same connection  *)
(* (to look something up), with statements that fail and are tried again    *)
(* on a new connection.                                                     *)
(*                                                                          *)
(* An operation unfolds step by step: a method opens a transaction object  *)
(* of its own, or nests in the one it was passed; statements write or read;  *)
(* methods commit and close.                                                 *)
(* What is to be shown, whatever fails: all of the writes or none are in    *)
(* the database when the operation is over, as it reports, and the          *)
(* connection has no transaction open.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS MaxLen,     \* longest operation
          MaxFaults,  \* statements that may fail
          Guard,      \* own transactions leave another's writes alone
          RetryGuard  \* no new connection while there are writes

VARIABLES n,        \* steps taken
          wrote,    \* the writes of the operation so far
          looked,   \* something was looked up after the last write
          stack, conn, pending, db, writer, faults, result

vars == <<n, wrote, looked, stack, conn, pending, db, writer, faults, result>>

\* a transaction object: the connection its cursor is of, nesting, the
\* number of statements it has executed
Obj(c) == [cur |-> c, nest |-> 0, q |-> 0]
Top == stack[Len(stack)]
Set(t) == [stack EXCEPT ![Len(stack)] = t]
Pop == SubSeq(stack, 1, Len(stack) - 1)

Init == /\ n = 0 /\ wrote = {} /\ looked = FALSE
        /\ stack = <<>> /\ conn = 1 /\ pending = {} /\ db = {}
        /\ writer = 0 /\ faults = 0 /\ result = ""

\* the depth (in the stack) of the object at the top identifies it
Me == Len(stack)
Owner == ~Guard \/ writer \in {0, Me}
Going == result = "" /\ n < MaxLen

Open == /\ Going /\ (stack = <<>> => n = 0)
        /\ stack' = Append(stack, Obj(conn)) /\ n' = n + 1
        /\ UNCHANGED <<wrote, looked, conn, pending, db, writer, faults, result>>

Nest == /\ Going /\ stack # <<>>
        /\ stack' = Set([Top EXCEPT !.nest = @ + 1]) /\ n' = n + 1
        /\ UNCHANGED <<wrote, looked, conn, pending, db, writer, faults, result>>

\* a statement runs if the cursor's connection is still there; only the
\* operation's own transaction writes
Write == /\ Going /\ Me = 1 /\ Top.cur = conn
         /\ stack' = Set([Top EXCEPT !.q = @ + 1])
         /\ wrote' = wrote \cup {n} /\ pending' = pending \cup {n}
         /\ writer' = IF writer = 0 THEN Me ELSE writer
         /\ looked' = FALSE /\ n' = n + 1
         /\ UNCHANGED <<conn, db, faults, result>>

Read == /\ Going /\ stack # <<>> /\ Top.cur = conn
        /\ stack' = Set([Top EXCEPT !.q = @ + 1])
        /\ looked' = (looked \/ Me > 1) /\ n' = n + 1
        /\ UNCHANGED <<wrote, conn, pending, db, writer, faults, result>>

\* one fails for good, or the connection its cursor belongs to is gone
Fail == /\ Going /\ stack # <<>>
        /\ \/ Top.cur # conn /\ faults' = faults
           \/ Top.cur = conn /\ faults < MaxFaults /\ faults' = faults + 1
        /\ result' = "failing"
        /\ UNCHANGED <<n, wrote, looked, stack, conn, pending, db, writer>>

\* the first statement of an object is tried again on a new connection
Retry == /\ Going /\ stack # <<>>
         /\ faults < MaxFaults /\ Top.q = 0
         /\ RetryGuard => pending = {}
         /\ faults' = faults + 1
         /\ conn' = conn + 1 /\ pending' = {}
         /\ stack' = Set([Top EXCEPT !.cur = conn + 1])
         /\ looked' = (looked \/ Me > 1)
         /\ UNCHANGED <<n, wrote, db, writer, result>>

\* sqlds never looks something up last: a lookup that was tried again has
\* lost the writes before it, and it is the write after it that finds out
MayEnd == Me = 1 => ~looked

Close == /\ result = "" /\ stack # <<>> /\ MayEnd
         /\ IF Top.nest > 0
            THEN /\ stack' = Set([Top EXCEPT !.nest = @ - 1])
                 /\ UNCHANGED <<pending, db, writer>>
            ELSE /\ stack' = Pop
                 /\ IF Owner THEN /\ db' = db \cup pending /\ pending' = {} /\ writer' = 0
                    ELSE UNCHANGED <<pending, db, writer>>
         /\ UNCHANGED <<n, wrote, looked, conn, faults, result>>

\* the commit itself fails
FailCommit == /\ result = "" /\ stack # <<>> /\ Top.nest = 0 /\ Owner
              /\ faults < MaxFaults /\ faults' = faults + 1
              /\ result' = "failing"
              /\ UNCHANGED <<n, wrote, looked, stack, conn, pending, db, writer>>

\* the exception travels up: each method rolls back and closes
Unwind == /\ result = "failing" /\ stack # <<>>
          /\ IF Top.nest > 0
             THEN /\ stack' = Set([Top EXCEPT !.nest = @ - 1])
                  /\ UNCHANGED <<pending, writer>>
             ELSE /\ stack' = Pop
                  /\ IF Owner THEN pending' = {} /\ writer' = 0
                     ELSE UNCHANGED <<pending, writer>>
          /\ UNCHANGED <<n, wrote, looked, conn, db, faults, result>>

Done == /\ stack = <<>> /\ n > 0
        /\ \/ result = "" /\ result' = "ok"
           \/ result = "failing" /\ result' = "err"
        /\ UNCHANGED <<n, wrote, looked, stack, conn, pending, db, writer, faults>>

\* cut off: too long to be interesting
Stuck == result = "" /\ n = MaxLen /\ stack # <<>> /\ ~MayEnd

Next == Open \/ Nest \/ Write \/ Read \/ Fail \/ Retry \/ Close \/ FailCommit
        \/ Unwind \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Atomic == /\ result = "ok" => db = wrote
          /\ result = "err" => db = {}
          /\ result = "failing" => db = {}
          /\ result = "" => db \in {{}, wrote}
Clean == result \in {"ok", "err"} => pending = {} /\ writer = 0
Ends == <>(result \in {"ok", "err"} \/ Stuck)
=============================================================================
