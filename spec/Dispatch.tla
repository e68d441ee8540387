------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* The dispatcher of a WSGI application.                                    *)
(*                                                                          *)
(* regs: a sequence of [pat |-> segments, id |-> handler].  "*" stands for  *)
(* one segment; at the end of a pattern for any number of them, none        *)
(* included (and then the slash before it may be missing).  A path is a     *)
(* sequence of segments, "/a/" being <<"", "a", "">>.                       *)
(*                                                                          *)
(* A match is described by the choices made from left to right:             *)
(*     3  segment matched by its name          4  the pattern ends          *)
(*     2  segment matched by "*"               1  the final "*" takes over  *)
(* Named matches win over wildcards, first difference first.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Min2(x, y) == IF x < y THEN x ELSE y

RECURSIVE Less(_, _)
Less(x, y) == CASE x = <<>> -> y # <<>>
                [] y = <<>> -> FALSE
                [] x[1] # y[1] -> x[1] < y[1]
                [] OTHER -> Less(Tail(x), Tail(y))

Code(pat, path, n) ==      \* the first n segments, one by one
    [i \in 1..n |-> IF pat[i] = path[i] THEN 3
                    ELSE IF pat[i] = "*" THEN 2 ELSE 0]

Fits(c) == \A i \in DOMAIN c : c[i] # 0

\* all ways in which the pattern matches the path
Matches(pat, path) ==
    LET n == Len(pat) IN
    (IF n = Len(path) /\ Fits(Code(pat, path, n))
     THEN {Append(Code(pat, path, n), 4)} ELSE {})
    \cup
    (IF pat[n] = "*" /\ n - 1 <= Len(path) /\ Fits(Code(pat, path, n - 1))
     THEN {Append(Code(pat, path, n - 1), 1)} ELSE {})

\* the last registration of the same pattern counts
Live(regs) == {i \in DOMAIN regs :
                 \A j \in DOMAIN regs : j > i => regs[j].pat # regs[i].pat}

\* the handler to run; 0: not found
Best(regs, path) ==
    LET all == UNION {{<<c, regs[i].id>> : c \in Matches(regs[i].pat, path)} :
                      i \in Live(regs)}
    IN  IF all = {} THEN 0
        ELSE (CHOOSE m \in all : \A o \in all : ~Less(m[1], o[1]))[2]

---------------------------------------------------------------------------
(* The same by walking a tree of registrations, trying the named child,     *)
(* then the "*" child, then the final "*" of the node itself.               *)
Node(regs, pre) == {i \in Live(regs) : Len(regs[i].pat) >= Len(pre)
                      /\ SubSeq(regs[i].pat, 1, Len(pre)) = pre}

IdOf(regs, pat) == LET s == {i \in Live(regs) : regs[i].pat = pat} IN
                   IF s = {} THEN 0 ELSE regs[CHOOSE i \in s : TRUE].id

RECURSIVE Walk(_, _, _)
Walk(regs, pre, path) ==
    IF Node(regs, pre) = {} THEN 0
    ELSE LET star == IdOf(regs, Append(pre, "*")) IN
         IF path = <<>>
         THEN LET h == IdOf(regs, pre) IN IF h # 0 /\ pre # <<>> THEN h ELSE star
         ELSE LET n == Walk(regs, Append(pre, path[1]), Tail(path))
                  w == Walk(regs, Append(pre, "*"), Tail(path))
              IN  IF n # 0 THEN n ELSE IF w # 0 THEN w ELSE star
=============================================================================
