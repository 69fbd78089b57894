---------------------------- MODULE TraceMemory ----------------------------
(***************************************************************************)
(* Validates recorded allocations of the decoder (see Memory.tla).         *)
(***************************************************************************)
EXTENDS Memory, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLES chain, n

Verdict(c) ==
    IF ~("res" \in DOMAIN c) THEN [c |-> "R", why |-> {"died"}, bad |-> <<1>>]
    ELSE [c |-> IF c.res.v = "ok" THEN "W" ELSE "R", why |-> {c.src},
          bad |-> IF c.res.v \in {"ok", "rej"} /\ c.res.alloc <= Budget(c.res.bytes) THEN <<>> ELSE <<1>>]

TInit == chain \in 1..Chains /\ n = chain
Check == /\ n <= Len(Trace)
         /\ LET v == Verdict(Trace[n]) IN PrintT(<<"J", n, v.c, v.why, v.bad>>)
         /\ n' = n + Chains
         /\ UNCHANGED chain
TSpec == TInit /\ [][Check]_<<chain, n>>
=============================================================================
