------------------------------ MODULE CipherMC ------------------------------
(* The design of AppCipher: a table of old keys, each encrypted with the    *)
(* next; a process holds its key, the old keys that still have their time,  *)
(* and the keys it has looked up.                                           *)
EXTENDS Cipher, Json

CONSTANTS Procs, Keys, Age, Late,
          Overlap,       \* all the pending keys are kept, not just the last
          Limit          \* the number of look-ups allowed, Age in the code

VARIABLES s, bad, db, mem

vars == <<s, bad, db, mem>>

Num(i) == 10 + i

Init == /\ s = Chain0(Age, Num(1), Procs) /\ bad = FALSE
        /\ db = <<>>                       \* i :> [by, exp]
        /\ mem = [p \in Procs |-> [key |-> 0, pend |-> <<>>, has |-> {}]]

See(e) == LET S == CStep(s, e) IN
          IF S = {} THEN s' = s /\ bad' = TRUE
          ELSE s' \in S /\ bad' = bad

Say(op) == PrintT("@" \o ToJson([a |-> <<s, mem>>, op |-> op,
                                 b |-> <<s', mem'>>]))

(* the keys looked up on the way to i, or {} if it cannot be had *)
RECURSIVE Walk(_, _, _)
Walk(has, i, n) ==
    IF i \in has THEN {i}
    ELSE IF i \notin DOMAIN db \/ n >= Limit THEN {}
    ELSE LET w == Walk(has, db[i].by, n + 1) IN
         IF w = {} THEN {} ELSE w \cup {i}

RECURSIVE Pending(_)
Pending(i) == IF i = 0 THEN <<>>
              ELSE Pending(i - 1) \o (IF db[i].exp > s.now
                                      THEN <<<<i, db[i].exp>>>> ELSE <<>>)

Start(p, w) ==
    /\ LET i == Len(s.num) IN
       /\ w => i > 1
       /\ s.pr[p].k < i \/ ~w
       /\ See([k |-> "start", p |-> p, i |-> i, when |-> w, res |-> "ok"])
       /\ mem' = [mem EXCEPT ![p] = [key |-> i, has |-> {i},
                    pend |-> IF w THEN Pending(i - 1) ELSE <<>>]]
    /\ UNCHANGED db
    /\ Say([n |-> "start", p |-> p, w |-> w])

Change(p, d) ==
    /\ Up(s, p) /\ s.pr[p].k = Len(s.num) /\ Len(s.num) < Keys
    /\ LET i == s.pr[p].k
           base == IF i = 1 THEN s.now - 1
                   ELSE IF s.exp[i - 1] > s.now - 1 THEN s.exp[i - 1]
                   ELSE s.now - 1
           at == base + 2 * d IN
       /\ i > 1 => at > s.exp[i - 1]
       /\ See([k |-> "change", p |-> p, num |-> Num(i + 1), at |-> at,
               res |-> "ok"])
       /\ db' = db @@ (i :> [by |-> i + 1, exp |-> at])
       /\ mem' = [mem EXCEPT ![p].key = i + 1, ![p].has = @ \cup {i + 1},
                    ![p].pend = IF Overlap THEN Append(@, <<i, at>>)
                                ELSE <<<<i, at>>>>]
    /\ Say([n |-> "change", p |-> p, d |-> d])

RECURSIVE Drop(_)
Drop(q) == IF q # <<>> /\ s.now > Head(q)[2] THEN Drop(Tail(q)) ELSE q

Make(p) ==
    /\ Up(s, p) /\ Len(s.tok) < 1
    /\ LET q == Drop(mem[p].pend)
           i == IF q = <<>> THEN mem[p].key ELSE Head(q)[1] IN
       /\ See([k |-> "make", p |-> p, num |-> Num(i)])
       /\ mem' = [mem EXCEPT ![p].pend = q,
                             ![p].has = @ \cup Walk(@, i, 0)]
    /\ UNCHANGED db
    /\ Say([n |-> "make", p |-> p])

Open(p, t) ==
    /\ Up(s, p)
    /\ LET w == Walk(mem[p].has, s.tok[t], 0) IN
       /\ See([k |-> "open", p |-> p, tok |-> t, forged |-> FALSE,
               res |-> IF w = {} THEN "refused" ELSE "same"])
       /\ mem' = [mem EXCEPT ![p].has = @ \cup w]
    /\ UNCHANGED db
    /\ Say([n |-> "open", p |-> p, t |-> t])

Tick ==
    /\ s.now < Late
    /\ See([k |-> "time", p |-> CHOOSE p \in Procs : TRUE, now |-> s.now + 2])
    /\ UNCHANGED <<db, mem>>
    /\ Say([n |-> "time", p |-> "", d |-> 1])

Next == \/ \E p \in Procs : \/ \E w \in BOOLEAN : Start(p, w)
                            \/ \E d \in 0..1 : Change(p, d)
                            \/ Make(p)
                            \/ \E t \in 1..Len(s.tok) : Open(p, t)
        \/ Tick

Allowed == ~bad

ExportInit == (mem = [p \in Procs |-> [key |-> 0, pend |-> <<>>, has |-> {}]]
               /\ s.now = 1) => PrintT("@" \o ToJson([init |-> <<s, mem>>]))
=============================================================================
