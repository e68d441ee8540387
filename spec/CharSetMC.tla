----------------------------- MODULE CharSetMC -----------------------------
(* All classes over N atoms (the outer two may be wide), K classes.         *)
EXTENDS CharSet, Json

CONSTANTS N, K
VARIABLE s

Cls == 1..K
Ops == {[n |-> n, c |-> c, i |-> i, j |-> j] :
            n \in {"add", "sub"}, c \in Cls, i \in 1..N, j \in 1..N}
       \cup {[n |-> n, c |-> c, i |-> i] :
            n \in {"addc", "subc"}, c \in Cls, i \in 2..(N - 1)}
       \cup {[n |-> "neg", c |-> c] : c \in Cls}
       \cup {[n |-> n, c |-> c, d |-> d] :
            n \in {"addcls", "subcls", "copy"}, c \in Cls, d \in Cls}

Say(v) == PrintT("@" \o ToJson(v))
View(x) == [c \in Cls |-> Enc(x[c], N)]

Init == s = [c \in Cls |-> {}] /\ Say([init |-> View(s)])
Next == \E op \in Ops :
            /\ s' = Exec(N, s, op)
            /\ Say([a |-> View(s), op |-> op, b |-> View(s')])

\* set algebra: each operation undone by its opposite where it should be
Laws == /\ \A c \in Cls : Exec(N, Exec(N, s, [n |-> "neg", c |-> c]), [n |-> "neg", c |-> c]) = s
        /\ \A c, d \in Cls :
              \* c \ d = complement of (complement of c + d)
              LET m == Exec(N, Exec(N, Exec(N, s, [n |-> "neg", c |-> c]),
                                    [n |-> "addcls", c |-> c, d |-> d]),
                            [n |-> "neg", c |-> c])
              IN  c # d => m = Exec(N, s, [n |-> "subcls", c |-> c, d |-> d])
=============================================================================
