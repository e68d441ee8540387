----------------------------- MODULE DispatchMC -----------------------------
(* Every set of up to K registrations over a small alphabet, every path:    *)
(* the choice by comparing matches is the choice of the tree walk.          *)
EXTENDS Dispatch, TLC, Json
CONSTANTS K, Depth
VARIABLES regs, done

Segs == {"a", "b", "*"}
Pats == UNION {{<<"">> \o p : p \in [1..n -> Segs]} : n \in 0..Depth}
Paths == UNION {{<<"">> \o p : p \in [1..n -> {"a", "b", "c", ""}]} :
                n \in 0..Depth}

Init == regs = <<>> /\ done = FALSE
Grow == /\ ~done /\ Len(regs) < K
        /\ \E p \in Pats : regs' = Append(regs, [pat |-> p, id |-> Len(regs) + 1])
        /\ UNCHANGED done
Next == Grow
Same == \A path \in Paths : Best(regs, path) = Walk(regs, <<>>, path)
\* the order of registration of different patterns does not matter
Order == \A path \in Paths : Len(regs) = 2 /\ regs[1].pat # regs[2].pat =>
           Best(regs, path) = Best(<<regs[2], regs[1]>>, path)
=============================================================================
