------------------------------ MODULE LockStore ------------------------------
(***************************************************************************)
(* pyslet.blockstore.LockStore: advisory locks kept as rows of a table.     *)
(*                                                                          *)
(* The lock is one row, NoRow when nobody holds it and otherwise the owner  *)
(* and the (whole second) time it was created.  A lock older than T is      *)
(* stale and may be taken over.  Contenders see the row only through single *)
(* operations on the table (insert, read, update guarded by the created     *)
(* value that was read, delete), each atomic, interleaved arbitrarily.      *)
(*                                                                          *)
(* Times are in milliseconds.  Assumed, as the code documents: less than    *)
(* one second passes between unlock reading the row and deleting it.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoRow == [o |-> "", c |-> 0]

Secs(t) == (t \div 1000) * 1000

Stale(row, T, t) == row # NoRow /\ row.c + T < t

(* free: nobody else has a claim on the lock *)
Free(row, T, t) == row = NoRow \/ Stale(row, T, t)

(* the time from which the row is (or will be) continuously free *)
FreeFrom(row, T, t) == IF row = NoRow THEN t ELSE row.c + T

(***************************************************************************)
(* What one step of one thread may do to the row, given the call it is in   *)
(***************************************************************************)
Acquires(old, new, th, T, t) ==
    /\ new # NoRow /\ new.o = th
    /\ old = NoRow \/ Stale(old, T, t)
    /\ new.c <= t + 1000 /\ new.c >= t - 2000

RowStep(old, new, th, call, T, t) ==
    \/ call = "lock" /\ Acquires(old, new, th, T, t)
    \/ call = "unlock" /\ old # NoRow /\ old.o = th /\ new = NoRow
    \/ call = "unlock" /\ old # NoRow /\ old.o = th         \* more time
          /\ new.o = th /\ new.c >= t - 2000 /\ new.c <= t + 1000
===============================================================================
