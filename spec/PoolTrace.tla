----------------------------- MODULE PoolTrace -----------------------------
(* Validates recorded uses of the connection pool of SQLEntityContainer *)
EXTENDS TraceCheck, Pool

PInit(cfg) == {Pool0(cfg.max, cfg.ts,
                     {cfg.threads[i] : i \in 1..Len(cfg.threads)})}

PStep(s, e) == IF e.k = "allfree" THEN (IF AllFree(s) THEN {s} ELSE {})
               ELSE PoolStep(s, e)

PWhy(s, e) == <<s.conn, s.th[e.t], s.shut>>
=============================================================================
