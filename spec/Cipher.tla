------------------------------- MODULE Cipher -------------------------------
(* The keys of an application as a chain: key i is replaced by key i+1 at   *)
(* exp[i].  A process knows the keys up to k, and which of them still have  *)
(* their time (from low on).  Times of change-over are even, the clock is   *)
(* odd.  A token is what was encrypted or signed.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Chain0(age, num, procs) ==
    [age |-> age, num |-> <<num>>, exp |-> <<>>, now |-> 1,
     pr |-> [p \in procs |-> [k |-> 0, low |-> 0]], tok |-> <<>>]

Up(s, p) == s.pr[p].k > 0

(* the key a process must use now *)
Current(s, p) ==
    LET k == s.pr[p].k IN
    CHOOSE i \in s.pr[p].low..k :
        /\ i = k \/ s.now < s.exp[i]
        /\ \A j \in s.pr[p].low..(i - 1) : s.now > s.exp[j]

Reads(s, p, i) == i <= s.pr[p].k /\ s.pr[p].k - i <= s.age

CStep(s, e) ==
    LET p == e.p IN
    CASE e.k = "time" -> IF e.now >= s.now THEN {[s EXCEPT !.now = e.now]}
                         ELSE {}
      [] e.k = "start" ->          \* with key i, after a change-over or not
            IF e.res = "ok"
            THEN {[s EXCEPT !.pr[p] = [k |-> e.i,
                        low |-> IF e.when THEN 1 ELSE e.i]]}
            ELSE {}
      [] e.k = "change" ->         \* the next key, from e.at on
            IF Up(s, p) /\ e.res = "ok"
            THEN IF s.pr[p].k = Len(s.num)
                 THEN {[s EXCEPT !.num = Append(@, e.num),
                                 !.exp = Append(@, e.at),
                                 !.pr[p].k = @ + 1]}
                 ELSE \* somebody else made this change at the same time
                      IF s.num[s.pr[p].k + 1] = e.num
                         /\ s.exp[s.pr[p].k] = e.at
                      THEN {[s EXCEPT !.pr[p].k = @ + 1]} ELSE {}
            ELSE {}
      [] e.k = "make" ->           \* encrypt or sign: under key number num
            IF Up(s, p) /\ e.num = s.num[Current(s, p)]
            THEN {[s EXCEPT !.tok = Append(@, Current(s, p))]} ELSE {}
      [] e.k = "open" ->           \* decrypt or check: "same" or refused
            IF Up(s, p)
               /\ IF e.forged THEN e.res = "refused"
                  ELSE e.res = "same" \/
                       (e.res = "refused" /\ ~Reads(s, p, s.tok[e.tok]))
            THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
