----------------------------- MODULE LockStoreMC -----------------------------
(***************************************************************************)
(* The protocol of LockStore.lock and unlock over the table, step by step.  *)
(* Checked: every step keeps to RowStep; nobody but the owner removes a     *)
(* lock; a contender that was given the lock and whose time is not up has   *)
(* it, so there is at most one such contender.  The flags switch off one    *)
(* precaution each: the model must then fail (the harness checks this).     *)
(***************************************************************************)
EXTENDS LockStore, Json

CONSTANTS Threads, T, MaxTime, Rounds, Guarded, MoreTime, OwnerCheck

VARIABLES row, now, pc, saw, got, left, lag, last

vars == <<row, now, pc, saw, got, left, lag, last>>

Init ==
    /\ row = NoRow /\ now = 0
    /\ pc = [t \in Threads |-> "idle"]
    /\ saw = [t \in Threads |-> NoRow]
    /\ got = [t \in Threads |-> FALSE]      \* between lock and unlock
    /\ left = [t \in Threads |-> Rounds]
    /\ lag = [t \in Threads |-> 0]          \* time since unlock read
    /\ last = <<"init">>

InUnlock(t) == pc[t] \in {"uupd", "udel"}

Tick ==
    /\ now < MaxTime
    /\ \A t \in Threads : InUnlock(t) => lag[t] = 0
    /\ now' = now + 500
    /\ lag' = [t \in Threads |-> IF InUnlock(t) THEN lag[t] + 500 ELSE 0]
    /\ last' = <<"tick">>
    /\ UNCHANGED <<row, pc, saw, got, left>>

Keep == UNCHANGED <<now, lag>>

(* a token is set to the time, but never to the value it had: an insert,  *)
(* which is given the time to start with, stores the next second           *)
Bump(old) == IF Secs(now) = old THEN Secs(now) + 1000 ELSE Secs(now)

(* lock(): insert; on failure read; if stale update; round again *)
Insert(t) ==
    /\ pc[t] = "idle" /\ ~got[t] /\ left[t] > 0
    /\ IF row = NoRow
       THEN /\ row' = [o |-> t, c |-> Bump(Secs(now))]
            /\ got' = [got EXCEPT ![t] = TRUE]
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ pc' = pc
       ELSE /\ pc' = [pc EXCEPT ![t] = "read"]
            /\ UNCHANGED <<row, got, left>>
    /\ UNCHANGED saw

Read(t) ==
    /\ pc[t] = "read"
    /\ saw' = [saw EXCEPT ![t] = IF Stale(row, T, now) THEN row ELSE NoRow]
    /\ pc' = [pc EXCEPT ![t] = IF Stale(row, T, now) THEN "upd" ELSE "idle"]
    /\ UNCHANGED <<row, got, left>>

Update(t) ==
    /\ pc[t] = "upd"
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ saw' = [saw EXCEPT ![t] = NoRow]
    /\ IF row # NoRow /\ (~Guarded \/ row.c = saw[t].c)
       THEN /\ row' = [o |-> t, c |-> Bump(row.c)]
            /\ got' = [got EXCEPT ![t] = TRUE]
            /\ left' = [left EXCEPT ![t] = @ - 1]
       ELSE UNCHANGED <<row, got, left>>

(* unlock(): read; if it is ours delete it, if need be buying time first *)
URead(t) ==
    /\ pc[t] = "idle" /\ got[t]
    /\ IF row = NoRow \/ (OwnerCheck /\ row.o # t)
       THEN /\ got' = [got EXCEPT ![t] = FALSE]
            /\ UNCHANGED <<pc, saw>>
       ELSE /\ pc' = [pc EXCEPT ![t] =
                        IF MoreTime /\ row.c + T < now + 1000
                        THEN "uupd" ELSE "udel"]
            /\ saw' = [saw EXCEPT ![t] = row]
            /\ UNCHANGED got
    /\ UNCHANGED <<row, left>>

UUpdate(t) ==
    /\ pc[t] = "uupd"
    /\ IF row # NoRow /\ row.c = saw[t].c
       THEN /\ row' = [row EXCEPT !.c = Bump(row.c), !.o = saw[t].o]
            /\ pc' = [pc EXCEPT ![t] = "udel"]
            /\ UNCHANGED got
       ELSE /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ got' = [got EXCEPT ![t] = FALSE]
            /\ UNCHANGED row
    /\ UNCHANGED <<saw, left>>

UDelete(t) ==
    /\ pc[t] = "udel"
    /\ row' = NoRow
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ saw' = [saw EXCEPT ![t] = NoRow]
    /\ got' = [got EXCEPT ![t] = FALSE]
    /\ UNCHANGED left

Call(t) == IF got[t] THEN "unlock" ELSE "lock"

Go(t) ==
    /\ Insert(t) \/ Read(t) \/ Update(t) \/ URead(t) \/ UUpdate(t)
       \/ UDelete(t)
    /\ Keep
    /\ last' = <<"go", t>>

View == <<row, now, pc, saw, got, left, lag>>

Next == \/ Tick
        \/ \E t \in Threads : Go(t)

Done == \A t \in Threads : pc[t] = "idle" /\ ~got[t] /\ left[t] = 0

Spec == Init /\ [][Next]_vars

(* every change to the row is one the rules allow *)
Rules == [][row' # row =>
              /\ last'[1] = "go"
              /\ RowStep(row, row', last'[2], Call(last'[2]), T, now)]_vars

(* a contender whose time is not up still has what it was given *)
Live(t) == got[t] /\ row.o = t /\ ~Stale(row, T, now)

OneHolder == Cardinality({t \in Threads : Live(t)}) <= 1

St == [row |-> row, now |-> now, pc |-> pc, saw |-> saw, got |-> got,
       left |-> left, lag |-> lag]

Op == IF last'[1] = "go" THEN [n |-> "go", t |-> last'[2]]
      ELSE [n |-> "tick", t |-> ""]
Export == PrintT("@" \o ToJson([a |-> St, op |-> Op, b |-> St']))
ExportInit == IF last[1] = "init"
              THEN PrintT("@" \o ToJson([init |-> St])) ELSE TRUE
=============================================================================
