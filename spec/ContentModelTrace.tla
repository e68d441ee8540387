------------------------- MODULE ContentModelTrace -------------------------
(***************************************************************************)
(* Validates recorded validating parses.  Events:                          *)
(*  decl [n, m, err, det]      an element type declaration; det: it was    *)
(*                             not flagged as non-deterministic            *)
(*  open [n, err, why]         a start tag; err: validity errors reported; *)
(*                             why: the expected names given with it       *)
(*  empty [n, ...]             an empty-element tag                        *)
(*  other [what, err]          data, comments, references...               *)
(*  close [err, why]           an end tag                                  *)
(***************************************************************************)
EXTENDS TraceCheck, ContentModel

VInit(cfg) == {[decls |-> <<>>, stack |-> <<>>, root |-> cfg.root]}

Declared(s, n) == {i \in 1..Len(s.decls) : s.decls[i].n = n}
ModelOf(s, n) ==
    IF Declared(s, n) = {} THEN Undeclared
    ELSE s.decls[CHOOSE i \in Declared(s, n) :
                    \A j \in Declared(s, n) : i <= j].m

Top(s) == s.stack[Len(s.stack)]
Below(s) == SubSeq(s.stack, 1, Len(s.stack) - 1)

DeclBad(s, e) ==
    \/ Declared(s, e.n) # {}
    \/ e.m.k = "M" /\ (Cardinality(Range_(e.m.names)) # Len(e.m.names))

(* Is a start tag to be complained about, and what follows from it *)
BadChild(s, n) ==
    IF s.stack = <<>> THEN s.root # n
    ELSE ~Top(s).dead /\ ~ChildOK(Top(s), n)
BadOpen(s, n) == BadChild(s, n) \/ ModelOf(s, n) = Undeclared
Opened(s, n) ==
    [s EXCEPT !.stack =
        (IF s.stack = <<>> THEN <<>>
         ELSE Append(Below(s), IF Top(s).dead THEN Top(s)
                               ELSE Child(Top(s), n)))
        \o <<Frame(n, ModelOf(s, n))>>]

BadClose(f) == ~f.dead /\ ~EndAllowed(f)

(* What was said to be possible.  why = <<>> when nothing was said about  *)
(* it.                                                                     *)
WhyOK(f, e) ==
    \/ e.why = <<>>
    \/ Range_(e.why[1].names) = NamesAllowed(f) /\
       (e.why[1].end <=> EndAllowed(f))

VStep(s, e) ==
    CASE e.k = "decl" ->
            IF (e.err <=> DeclBad(s, e)) /\
               (e.det <=> Deterministic(e.m))
            THEN {[s EXCEPT !.decls = Append(@, [n |-> e.n, m |-> e.m])]}
            ELSE {}
      [] e.k = "open" ->
            IF (e.err <=> BadOpen(s, e.n)) /\
               (s.stack # <<>> /\ BadChild(s, e.n) => WhyOK(Top(s), e))
            THEN {Opened(s, e.n)}
            ELSE {}
      [] e.k = "empty" ->
            LET t == Opened(s, e.n) IN
            IF e.err <=> (BadOpen(s, e.n) \/ BadClose(Top(t)))
            THEN {[t EXCEPT !.stack = Below(t)]}
            ELSE {}
      [] e.k = "refempty" ->
            (* a reference to an entity with an empty element in it *)
            LET t == Opened(s, e.n) IN
            IF e.err <=> (BadOpen(s, e.n) \/ BadClose(Top(t)) \/
                          Top(s).m.k = "E")
            THEN {[t EXCEPT !.stack = Below(t)]}
            ELSE {}
      [] e.k = "other" ->
            IF e.err <=> ~OtherOK(Top(s), e.what) THEN {s} ELSE {}
      [] e.k = "close" ->
            IF (e.err <=> BadClose(Top(s))) /\
               (BadClose(Top(s)) => WhyOK(Top(s), e))
            THEN {[s EXCEPT !.stack = Below(s)]}
            ELSE {}
      [] OTHER -> {}

VWhy(s, e) ==
    IF s.stack = <<>> THEN <<"no element">>
    ELSE <<Top(s).n, Top(s).dead, Top(s).m.k,
           IF Top(s).m.k = "P" THEN {b.n : b \in Steps(Top(s).st)} ELSE {},
           EndAllowed(Top(s))>>
=============================================================================
