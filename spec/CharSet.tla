------------------------------ MODULE CharSet ------------------------------
(* Character classes as sets.  The code points are cut into N intervals     *)
(* ("atoms", in order); a class is a set of atoms.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(i, j) == IF i < j THEN i ELSE j
Max2(i, j) == IF i < j THEN j ELSE i
Rng(i, j) == Min2(i, j)..Max2(i, j)

\* s: sequence of classes; op: [n, c, ...]
Exec(N, s, op) ==
    CASE op.n = "add"    -> [s EXCEPT ![op.c] = @ \cup Rng(op.i, op.j)]
      [] op.n = "sub"    -> [s EXCEPT ![op.c] = @ \ Rng(op.i, op.j)]
      [] op.n = "addc"   -> [s EXCEPT ![op.c] = @ \cup {op.i}]
      [] op.n = "subc"   -> [s EXCEPT ![op.c] = @ \ {op.i}]
      [] op.n = "neg"    -> [s EXCEPT ![op.c] = (1..N) \ @]
      [] op.n = "addcls" -> [s EXCEPT ![op.c] = @ \cup s[op.d]]
      [] op.n = "subcls" -> [s EXCEPT ![op.c] = @ \ s[op.d]]
      [] op.n = "copy"   -> [s EXCEPT ![op.c] = s[op.d]]
      \* a new class of characters, ranges and classes
      [] op.n = "new"    -> [s EXCEPT ![op.c] =
                               {op.chars[k] : k \in DOMAIN op.chars}
                               \cup UNION {Rng(op.rngs[k][1], op.rngs[k][2]) :
                                             k \in DOMAIN op.rngs}
                               \cup UNION {s[op.cls[k]] : k \in DOMAIN op.cls}]

\* how a class is observed: the sum of 2^(i-1) over its atoms i
RECURSIVE Enc(_, _)
Enc(S, n) == IF n = 0 THEN 0
             ELSE (IF n \in S THEN 2 ^ (n - 1) ELSE 0) + Enc(S, n - 1)
=============================================================================
