---------------------------- MODULE TraceDecode ----------------------------
(***************************************************************************)
(* Validates recorded decodings: each line of the trace is one input with  *)
(* the outcomes the implementation had for it, by all of its entry points. *)
(* The cases are independent; W chains of steps, each over every W-th      *)
(* case, let TLC's workers share them.                                     *)
(***************************************************************************)
EXTENDS Judge, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Chains == 8

VARIABLES chain, n    \* n: the next case of this chain

Verdict(c) ==
    LET a == Assess(c.inp, c.cut)
    IN  [c |-> a.c, why |-> a.why,
         bad |-> SelectSeq([i \in 1..Len(c.outs) |-> i],
                           LAMBDA i : ~Allowed(c.inp, a, c.outs[i]))]

Init == chain \in 1..Chains /\ n = chain

Check == /\ n <= Len(Trace)
         /\ LET v == Verdict(Trace[n])
            IN  PrintT(<<"J", n, v.c, v.why, v.bad>>)
         /\ n' = n + Chains
         /\ UNCHANGED chain

Spec == Init /\ [][Check]_<<chain, n>>
=============================================================================
