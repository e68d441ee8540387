----------------------------- MODULE BlockRefsMC -----------------------------
(***************************************************************************)
(* How streams share blocks: refs is the bag of references (stream, hash),  *)
(* data the set of hashes stored, locks who holds the lock of a hash.       *)
(* Workers add a reference (store), replace one (update) or drop one        *)
(* (delete), one table operation per step.                                  *)
(* Checked: whatever is referenced by work that is finished is stored, when *)
(* all is finished nothing else is, and all of it finishes.  The flags take *)
(* away one precaution each: the model must then fail.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Workers, Hashes, RefFirst, CountLocked, Ordered

VARIABLES refs, data, locks, job, pc, done

vars == <<refs, data, locks, job, pc, done>>

Rank(x) == CHOOSE i \in 1..Cardinality(Hashes) :
              Cardinality({y \in Hashes : y = x \/ (y # x /\ y \in
                 (IF x = "g" THEN {} ELSE IF x = "h" THEN {"g"}
                  ELSE {"g", "h"}))}) = i

Jobs == [op : {"store"}, new : Hashes, old : {""}] \cup
        [op : {"delete"}, old : Hashes, new : {""}] \cup
        {j \in [op : {"update"}, old : Hashes, new : Hashes] :
            j.old # j.new}

(* each worker owns the reference it works on *)
Init ==
    /\ job \in [Workers -> Jobs]
    /\ refs = [w \in Workers |-> job[w].old]
    /\ data = {job[w].old : w \in Workers} \ {""}
    /\ locks = [x \in Hashes |-> ""]
    /\ pc = [w \in Workers |-> 1]
    /\ done = {}

Go(w, n) == pc' = [pc EXCEPT ![w] = n]
Lock(w, x, n) == /\ locks[x] = "" /\ locks' = [locks EXCEPT ![x] = w]
                 /\ Go(w, n) /\ UNCHANGED <<refs, data, job, done>>
Unlock(w, xs) == locks' = [x \in Hashes |-> IF x \in xs THEN "" ELSE locks[x]]
Finish(w) == done' = done \cup {w} /\ Go(w, 0)
SetRef(w, x, n) == /\ refs' = [refs EXCEPT ![w] = x] /\ Go(w, n)
                   /\ UNCHANGED <<data, locks, job, done>>
Used(x) == \E w \in Workers : refs[w] = x

Store(w) ==
    LET x == job[w].new IN
    IF RefFirst THEN
       CASE pc[w] = 1 -> SetRef(w, x, 2)
         [] pc[w] = 2 -> Lock(w, x, 3)
         [] pc[w] = 3 -> /\ data' = data \cup {x} /\ Unlock(w, {x})
                         /\ Finish(w) /\ UNCHANGED <<refs, job>>
    ELSE
       CASE pc[w] = 1 -> Lock(w, x, 2)
         [] pc[w] = 2 -> /\ data' = data \cup {x} /\ Unlock(w, {x})
                         /\ Go(w, 3) /\ UNCHANGED <<refs, job, done>>
         [] pc[w] = 3 -> /\ refs' = [refs EXCEPT ![w] = x] /\ Finish(w)
                         /\ UNCHANGED <<data, locks, job>>

(* count the references to x, then delete the data if there are none *)
Sweep(w, x, n) ==
    IF CountLocked
    THEN \/ /\ pc[w] = n /\ Used(x)
            /\ Unlock(w, {x, job[w].new}) /\ Finish(w)
            /\ UNCHANGED <<refs, data, job>>
         \/ /\ pc[w] = n /\ ~Used(x) /\ Go(w, n + 1)
            /\ UNCHANGED <<refs, data, locks, job, done>>
         \/ /\ pc[w] = n + 1 /\ data' = data \ {x}
            /\ Unlock(w, {x, job[w].new}) /\ Finish(w)
            /\ UNCHANGED <<refs, job>>
    ELSE \/ /\ pc[w] = n /\ Unlock(w, {x, job[w].new}) /\ Go(w, n + 1)
            /\ UNCHANGED <<refs, data, job, done>>
         \/ /\ pc[w] = n + 1
            /\ IF Used(x) THEN Finish(w) /\ UNCHANGED data
               ELSE Go(w, n + 2) /\ UNCHANGED <<data, done>>
            /\ UNCHANGED <<refs, locks, job>>
         \/ /\ pc[w] = n + 2 /\ data' = data \ {x} /\ Finish(w)
            /\ UNCHANGED <<refs, locks, job>>

Delete(w) ==
    LET x == job[w].old IN
    \/ pc[w] = 1 /\ Lock(w, x, 2)
    \/ pc[w] = 2 /\ SetRef(w, "", 3)
    \/ pc[w] > 2 /\ Sweep(w, x, 3)

Update(w) ==
    LET o == job[w].old  x == job[w].new
        a == IF Ordered /\ Rank(x) < Rank(o) THEN x ELSE o
        b == IF a = o THEN x ELSE o
    IN \/ pc[w] = 1 /\ Lock(w, a, 2)
       \/ pc[w] = 2 /\ Lock(w, b, 3)
       \/ /\ pc[w] = 3 /\ data' = data \cup {x} /\ Go(w, 4)
          /\ UNCHANGED <<refs, locks, job, done>>
       \/ pc[w] = 4 /\ SetRef(w, x, 5)
       \/ pc[w] > 4 /\ Sweep(w, o, 5)

Step(w) == /\ w \notin done
           /\ CASE job[w].op = "store" -> Store(w)
                [] job[w].op = "delete" -> Delete(w)
                [] OTHER -> Update(w)

AllDone == done = Workers
Next == (\E w \in Workers : Step(w)) \/ (AllDone /\ UNCHANGED vars)

(* deadlock checking shows that everything finishes *)
Kept == \A w \in done : refs[w] # "" => refs[w] \in data
NoLeft == AllDone => data = {refs[w] : w \in Workers} \ {""}
Untouched == \A w \in Workers :
                (pc[w] <= 2 /\ job[w].op # "store") =>
                    (refs[w] # "" => refs[w] \in data)
=============================================================================
