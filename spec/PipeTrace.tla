------------------------------ MODULE PipeTrace ------------------------------
(* Validates recorded executions of pyslet.streams.Pipe *)
EXTENDS TraceCheck, Pipe

PInit(cfg) == {PipeState(cfg.max, cfg.tmo, cfg.rb, cfg.wb, 1..cfg.threads)}

PStep(s, e) ==
    CASE e.k = "call" ->    \* a call that met no other thread
            UNION {Return(r, 1, e.res, e.now) :
                     r \in Closure(Invoke(s, 1, e.op, e.since), {1})}
      [] e.k = "inv" -> UNION {Invoke(r, e.t, e.op, e.now) : r \in {s}}
      [] e.k = "ret" -> UNION {Return(r, e.t, e.res, e.now) :
                                 r \in Closure({s}, Threads(s))}
      [] e.k = "stuck" -> {r \in Closure({s}, Threads(s)) : Stuck(r)}
      [] OTHER -> {}

PWhy(s, e) ==
    IF e.k = "call" THEN {[res |-> o.res] : o \in Effect(s, e.op)}
    ELSE {[buf |-> s.buf, eof |-> s.eof, closed |-> s.closed]}
=============================================================================
