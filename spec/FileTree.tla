------------------------------ MODULE FileTree ------------------------------
(* Paths and a tree of directories and files (pyslet.vfs).                  *)
(*                                                                          *)
(* A path is the sequence of the parts between its separators: "/a/" is     *)
(* <<"", "a", "">>, the empty path is <<"">>.                               *)
(* State: [tree |-> name sequence -> node, cwd |-> name sequence,           *)
(*         h |-> handle -> open file]                                       *)
(* node: [d |-> TRUE] (directory) or [d |-> FALSE, data |-> bytes]          *)
(* open file: [at |-> name sequence, rd, wr |-> may read, write,            *)
(*             buf |-> bytes, pos]                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]

(***************************************************************************)
(* Paths                                                                    *)
(***************************************************************************)
IsAbs(p) == Len(p) > 1 /\ p[1] = ""
IsEmptyPath(p) == p = <<"">>
IsDirlike(p) == Len(p) > 1 /\ Last(p) \in {"", "."}
IsRoot(p) == IsAbs(p) /\ \A i \in DOMAIN p : p[i] = ""

\* where path parts p lead from the directory d (".." at the root is "/")
RECURSIVE Walk(_, _)
Walk(d, p) ==
    IF p = <<>> THEN d
    ELSE Walk(IF p[1] \in {"", "."} THEN d
              ELSE IF p[1] = ".." THEN (IF d = <<>> THEN d ELSE Front(d))
              ELSE Append(d, p[1]), Tail(p))
Den(cwd, p) == Walk(IF IsAbs(p) THEN <<>> ELSE cwd, p)

\* <<number of leading "..", names>> of a relative path
RECURSIVE Steps(_, _, _)
Steps(u, d, p) ==
    IF p = <<>> THEN <<u, d>>
    ELSE IF p[1] \in {"", "."} THEN Steps(u, d, Tail(p))
    ELSE IF p[1] = ".." THEN (IF d = <<>> THEN Steps(u + 1, d, Tail(p))
                              ELSE Steps(u, Front(d), Tail(p)))
    ELSE Steps(u, Append(d, p[1]), Tail(p))

Norm(p) ==
    IF IsAbs(p)
    THEN LET d == Walk(<<>>, p) IN IF d = <<>> THEN <<"", "">> ELSE <<"">> \o d
    ELSE LET s == Steps(0, <<>>, p)
             r == [i \in 1..s[1] |-> ".."] \o s[2]
         IN IF r = <<>> THEN <<".">> ELSE r

\* q after p, as os.path.join
Join2(p, q) ==
    IF IsAbs(q) THEN q
    ELSE IF Last(p) = "" THEN Front(p) \o q     \* p is empty or ends in "/"
    ELSE p \o q
RECURSIVE JoinAll(_, _)
JoinAll(p, qs) ==
    IF qs = <<>> THEN p
    ELSE JoinAll(IF IsEmptyPath(qs[1]) THEN Join2(p, qs[1]) ELSE Join2(p, qs[1]), Tail(qs))

\* root and extension of a last part
Ext(n) == CASE n = "b.c" -> <<"b", ".c">>
            [] n = "e.f.g" -> <<"e.f", ".g">>
            [] OTHER -> <<n, "">>               \* ".d", ".", "..", "a", ""
SplitExt(p) == LET x == Ext(Last(p)) IN <<Append(Front(p), x[1]), x[2]>>

\* h, t: what split(p) gave
SplitOk(p, h, t) ==
    /\ t = <<Last(p)>>
    /\ IF Len(p) = 1 THEN h = <<"">>
       ELSE /\ IsAbs(h) = IsAbs(p)
            /\ \A c \in {<<>>, <<"w">>, <<"w", "x", "y", "z">>} :
                  /\ Den(c, h) = Den(c, Append(Front(p), ""))
                  /\ Den(c, Join2(h, t)) = Den(c, p)

(***************************************************************************)
(* The tree                                                                 *)
(***************************************************************************)
Dir == [d |-> TRUE]
File(data) == [d |-> FALSE, data |-> data]
S0 == [tree |-> (<<>> :> Dir), cwd |-> <<>>, h |-> <<>>]

Has(s, t) == t \in DOMAIN s.tree
IsDir(s, t) == Has(s, t) /\ s.tree[t].d
IsFile(s, t) == Has(s, t) /\ ~s.tree[t].d
IsOpen(s, t) == \E k \in DOMAIN s.h : s.h[k].at = t
Under(t, d) == Len(t) >= Len(d) /\ SubSeq(t, 1, Len(d)) = d

TreeClosed(s) == \A t \in DOMAIN s.tree : t # <<>> => IsDir(s, Front(t))

R(s, r) == [s |-> s, r |-> r]
Err(s) == {R(s, [r |-> "err"])}
Ok(s) == {R(s, [r |-> "ok"])}
ValR(s, v) == {R(s, [r |-> "ok", v |-> v])}

Put(s, t, n) == [s EXCEPT !.tree = (t :> n) @@ @]
Drop(s, T) == [s EXCEPT !.tree = [x \in (DOMAIN @) \ T |-> @[x]]]

RECURSIVE MakeAll(_, _, _)
MakeAll(s, t, i) == IF i > Len(t) THEN s
                    ELSE MakeAll(IF Has(s, SubSeq(t, 1, i)) THEN s
                                 ELSE Put(s, SubSeq(t, 1, i), Dir), t, i + 1)

\* a new or existing file can be opened for writing at path p
CanWrite(s, p) ==
    LET t == Den(s.cwd, p) IN
    /\ ~IsEmptyPath(p) /\ ~IsDirlike(p)
    /\ ~IsDir(s, t) /\ ~IsOpen(s, t)
    /\ t # <<>> /\ IsDir(s, Front(t))
CanRead(s, p) ==
    LET t == Den(s.cwd, p) IN
    ~IsEmptyPath(p) /\ ~IsDirlike(p) /\ IsFile(s, t) /\ ~IsOpen(s, t)

Pad(b, n) == IF Len(b) >= n THEN b ELSE b \o [i \in 1..(n - Len(b)) |-> 0]
Cut(b, n) == IF n >= Len(b) THEN b ELSE SubSeq(b, 1, n)

Exec(s, op) ==
    LET t == Den(s.cwd, op.p) IN
    CASE op.n = "mkdir" ->
            IF Has(s, t) \/ ~IsDir(s, Front(t)) THEN Err(s) ELSE Ok(Put(s, t, Dir))
      [] op.n = "makedirs" ->
            IF \E i \in 1..Len(t) : IsFile(s, SubSeq(t, 1, i)) THEN Err(s)
            ELSE Ok(MakeAll(s, t, 1))
      [] op.n = "exists" ->
            IF IsDirlike(op.p) /\ IsFile(s, t)
            THEN ValR(s, TRUE) \cup ValR(s, FALSE)
            ELSE ValR(s, Has(s, t))
      [] op.n = "isfile" -> ValR(s, IsFile(s, t) /\ ~IsDirlike(op.p))
      [] op.n = "isdir" -> ValR(s, IsDir(s, t))
      [] op.n = "listdir" ->
            IF ~IsDir(s, t) THEN Err(s)
            ELSE ValR(s, {Last(x) : x \in {y \in DOMAIN s.tree : y # <<>> /\ Front(y) = t}})
      [] op.n = "remove" ->
            IF IsFile(s, t) /\ ~IsDirlike(op.p) /\ ~IsOpen(s, t)
            THEN Ok(Drop(s, {t})) ELSE Err(s)
      [] op.n = "rmtree" ->
            LET all == {x \in DOMAIN s.tree : Under(x, t)}
                open == {x \in all : IsOpen(s, x)}
            IN  IF ~IsDir(s, t) THEN (IF op.ign THEN Ok(s) ELSE Err(s))
                ELSE IF open = {} THEN Ok(Drop(s, all))
                ELSE IF ~op.ign THEN Err(s)
                \* directories stay if files are in use
                ELSE Ok(Drop(s, {x \in all : ~s.tree[x].d} \ open))
      [] op.n = "copy" ->
            LET src == Den(s.cwd, op.p)
                dst == Den(s.cwd, op.q)
                into == IsDir(s, dst)
                q == IF into THEN Join2(op.q, <<Last(op.p)>>) ELSE op.q
            IN  IF ~CanRead(s, op.p) \/ ~CanWrite(s, q) \/ Den(s.cwd, q) = src
                THEN Err(s)
                ELSE Ok(Put(s, Den(s.cwd, q), File(s.tree[src].data)))
      [] op.n = "chdir" -> Ok([s EXCEPT !.cwd = t])
      [] op.n = "getcwd" -> ValR(s, s.cwd)
      [] op.n = "put" ->       \* open, write all, close
            IF CanWrite(s, op.p) THEN Ok(Put(s, t, File(op.data))) ELSE Err(s)
      [] op.n = "get" ->
            IF CanRead(s, op.p) THEN ValR(s, s.tree[t].data) ELSE Err(s)
      [] op.n = "open" ->
            LET old == IF IsFile(s, t) THEN s.tree[t].data ELSE <<>>
                data == IF op.m \in {"wb", "w+b"} THEN <<>> ELSE old
            IN  IF ~(IF op.m \in {"rb", "r+b"} THEN CanRead(s, op.p) ELSE CanWrite(s, op.p))
                THEN Err(s)
                ELSE Ok([Put(s, t, File(data)) EXCEPT
                           !.h = (op.h :> [at |-> t, buf |-> data,
                                           pos |-> IF op.m = "ab" THEN Len(data) ELSE 0,
                                           rd |-> op.m \in {"rb", "r+b", "w+b"},
                                           wr |-> op.m # "rb"]) @@ @])
      [] op.n = "hread" ->
            LET f == s.h[op.h]
                rest == IF f.pos >= Len(f.buf) THEN <<>>
                        ELSE SubSeq(f.buf, f.pos + 1, Len(f.buf))
                got == IF op.k < 0 THEN rest ELSE Cut(rest, op.k)
            IN  IF ~f.rd THEN Err(s)
                ELSE ValR([s EXCEPT !.h[op.h].pos = @ + Len(got)], got)
      [] op.n = "hwrite" ->
            LET f == s.h[op.h]
                b == IF op.data = <<>> THEN f.buf
                     ELSE Cut(Pad(f.buf, f.pos), f.pos) \o op.data \o
                     (IF f.pos + Len(op.data) >= Len(f.buf) THEN <<>>
                      ELSE SubSeq(f.buf, f.pos + Len(op.data) + 1, Len(f.buf)))
            IN  IF ~f.wr THEN Err(s)
                ELSE Ok([s EXCEPT !.h[op.h].buf = b, !.h[op.h].pos = @ + Len(op.data)])
      [] op.n = "hseek" -> Ok([s EXCEPT !.h[op.h].pos = op.k])
      [] op.n = "hclose" ->
            LET f == s.h[op.h] IN
            Ok([s EXCEPT !.h = [k \in (DOMAIN @) \ {op.h} |-> @[k]],
                         !.tree = (f.at :> File(f.buf)) @@ @])
=============================================================================
