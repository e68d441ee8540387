---------------------------- MODULE CipherTrace ----------------------------
(* Validates recorded uses of pyslet.wsgi.AppCipher *)
EXTENDS TraceCheck, Cipher

KInit(cfg) == {Chain0(cfg.age, cfg.num,
                      {cfg.procs[i] : i \in 1..Len(cfg.procs)})}
KStep(s, e) == CStep(s, e)
KWhy(s, e) == <<s.now, s.num, s.exp, s.pr[e.p],
                IF e.k = "open" /\ ~e.forged THEN s.tok[e.tok] ELSE 0>>
=============================================================================
