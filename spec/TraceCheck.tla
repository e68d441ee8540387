----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Validation of recorded executions.  The including module EXTENDS this    *)
(* one and defines                                                          *)
(*                                                                          *)
(*   TInit(cfg)     the set of specification states a trace may start in    *)
(*   TStep(s, e)    the set of specification states after event e in s:     *)
(*                  empty iff the specification does not allow e in s       *)
(*   TWhy(s, e)     any value: what the specification expected (for the     *)
(*                  report only)                                            *)
(*                                                                          *)
(* All specification states that explain the events so far are carried      *)
(* along as a set, so what was not logged is inferred, the search is linear *)
(* in the length of the trace and every trace gets exactly one verdict.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS TInit(_), TStep(_, _), TWhy(_, _)

VARIABLES tr, ix, ss

tvars == <<tr, ix, ss>>

Traces == JsonDeserialize(IOEnv.TRACES)

TraceInit ==
    /\ tr \in 1..Len(Traces)
    /\ ix = 1
    /\ ss = TInit(Traces[tr].cfg)

Say(v) == PrintT("@" \o ToJson(v))

TraceNext ==
    /\ ss # {}
    /\ IF ix > Len(Traces[tr].ev)
       THEN /\ Say(<<"ACCEPT", tr>>)
            /\ ss' = {}
            /\ UNCHANGED <<tr, ix>>
       ELSE LET e == Traces[tr].ev[ix]
                nx == UNION {TStep(s, e) : s \in ss}
            IN  /\ IF nx = {}
                   THEN Say(<<"REJECT", tr, ix,
                              {TWhy(s, e) : s \in ss}>>)
                   ELSE TRUE
                /\ ss' = nx
                /\ ix' = ix + 1
                /\ UNCHANGED tr

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
