-------------------------- MODULE ContentModelMC --------------------------
(* All small models, and all short sequences of children                   *)
EXTENDS ContentModel, TLC, Json

CONSTANTS Names, Extra, Wide, Long

Occs == {"1", "?", "*", "+"}
Leaves == [k : {"n"}, n : Names, o : Occs]
Tuples(S, lo, hi) == UNION {[1..i -> S] : i \in lo..hi}
Lists(S, hi, os) ==
    [k : {"s"}, ch : Tuples(S, 1, hi), o : os] \cup
    [k : {"c"}, ch : Tuples(S, 2, hi), o : os]
Flat == Lists(Leaves, Wide, Occs)
(* groups within groups *)
Plain == [k : {"n"}, n : Names, o : {"1", "?"}]
Inner == Lists(Plain, 2, {"1", "*"})
Nested == {[k |-> k, o |-> o, ch |-> <<g, l>>] :
                k \in {"s", "c"}, o \in {"1", "*"}, g \in Inner,
                l \in Plain} \cup
          {[k |-> "s", o |-> o, ch |-> <<g>>] :
                o \in {"1", "?", "+"}, g \in Inner}

Models == {[k |-> "E"], [k |-> "A"]} \cup
          [k : {"M"}, names : Tuples(Names, 0, 2)] \cup
          [k : {"P"}, p : Flat \cup Nested]

VARIABLES m, w, f

vars == <<m, w, f>>

Init ==
    /\ m \in Models
    /\ w = <<>>
    /\ f = Frame("r", m)

Exp(g) == IF g.m.k = "A" THEN {"*"} ELSE NamesAllowed(g)

Next ==
    /\ ~f.dead
    /\ Len(w) < Long
    /\ \E n \in Names \cup Extra :
        /\ w' = Append(w, n)
        /\ f' = Child(f, n)
    /\ UNCHANGED m

Spec == Init /\ [][Next]_vars

(* The parse state agrees with the meaning of the model *)
Agrees == ~f.dead => (EndAllowed(f) <=> Allowed(m, w))

(* A child is complained about only if no valid content starts so: the     *)
(* extensions up to the bound are searched                                 *)
Prompt == f.dead =>
    \A v \in Tuples(Names, 0, 2) : ~Allowed(m, w \o v)

(* ... and what is said to be possible is *)
Viable == (~f.dead /\ m.k = "P") => f.st # {}

(* In a deterministic model there is at most one particle for each name *)
Single == (Deterministic(m) /\ m.k = "P" /\ ~f.dead) => ~Clash(f.st)

(* For the binding *)
Export == PrintT("@" \o ToJson([m |-> m, w |-> w, dead |-> f.dead,
                                end |-> IF f.dead THEN FALSE
                                        ELSE EndAllowed(f),
                                exp |-> IF f.dead THEN {} ELSE Exp(f),
                                det |-> Deterministic(m)]))
=============================================================================
