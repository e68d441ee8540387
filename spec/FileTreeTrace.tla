--------------------------- MODULE FileTreeTrace ---------------------------
(* Events: [op, res] of the file system; [path |-> p, ...] of path algebra. *)
EXTENDS TraceCheck, FileTree

FInit(cfg) == {S0}

Same(op, r, res) ==
    /\ res.r = r.r
    /\ IF res.r # "ok" THEN TRUE
       ELSE IF op.n = "listdir"
       THEN /\ {res.v[i] : i \in DOMAIN res.v} = r.v
            /\ Len(res.v) = Cardinality(r.v)
       ELSE IF op.n \in {"exists", "isfile", "isdir", "get", "hread"} THEN res.v = r.v
       ELSE IF op.n = "getcwd" THEN IsAbs(res.v) /\ Den(<<>>, res.v) = r.v
       ELSE TRUE

PathOk(e) ==
    /\ e.norm = Norm(e.path) /\ e.norm2 = e.norm
    /\ e.abs = IsAbs(e.path) /\ e.root = IsRoot(e.path)
    /\ e.dirlike = IsDirlike(e.path) /\ e.empty = IsEmptyPath(e.path)
    /\ e.single = (Len(e.path) = 1)
    /\ SplitOk(e.path, e.split[1], e.split[2])
    /\ <<e.ext[1], e.extn>> = SplitExt(e.path)

FStep(s, e) ==
    IF "path" \in DOMAIN e THEN (IF PathOk(e) THEN {s} ELSE {})
    ELSE IF "join" \in DOMAIN e
    THEN LET j == JoinAll(e.join, e.more) IN
         IF e.res = j /\ e.cons = j
         THEN {s} ELSE {}
    ELSE {o.s : o \in {x \in Exec(s, e.op) : Same(e.op, x.r, e.res)}}
FWhy(s, e) ==
    IF "path" \in DOMAIN e THEN [norm |-> Norm(e.path), ext |-> SplitExt(e.path)]
    ELSE IF "join" \in DOMAIN e THEN [j |-> JoinAll(e.join, e.more)]
    ELSE [r |-> {o.r : o \in Exec(s, e.op)}]
=============================================================================
