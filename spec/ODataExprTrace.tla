--------------------------- MODULE ODataExprTrace ---------------------------
(* Validates recorded evaluations.  Event: [toks, r, r2]: what the code     *)
(* gave for the expression written as these tokens, and for the expression  *)
(* formatted by the code and read again.                                    *)
EXTENDS TraceCheck, ODataExpr

Db == JsonDeserialize(IOEnv.SAMPLES)

EInit(cfg) == {Db}

SameV(s, r) == r.r = "val" /\ r.n = s.n /\ (s.n \/ r.v = s.v)

Ok(db, e) ==
    LET p == Parse(e.toks) IN
    IF p = <<>> THEN e.r.r = "syntax"
    ELSE LET s == Eval(db, p[1]) IN
         IF s.u THEN e.r.r # "syntax"
         ELSE IF s = Bad THEN e.r.r = "eval" /\ e.r2.r = "eval"
         ELSE SameV(s, e.r) /\ e.r.t = s.t /\ SameV(s, e.r2)

EStep(s, e) == IF Ok(s, e) THEN {s} ELSE {}

EWhy(s, e) == LET p == Parse(e.toks) IN
              IF p = <<>> THEN [t |-> "syntax"] ELSE Eval(s, p[1])
=============================================================================
