----------------------------- MODULE TraceWrite -----------------------------
(***************************************************************************)
(* Validates recorded encodings to a writer that fails (see Sink.tla).     *)
(***************************************************************************)
EXTENDS Encoder, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLES chain, n

Verdict(c) ==
    IF ~("res" \in DOMAIN c) THEN [c |-> "R", why |-> {"died"}, bad |-> <<1>>]
    ELSE LET w == c.wr
             r == c.res
             x == Typed(w.ty, w.val)
             e == Enc(x.objs[1])
             good == IF Len(e) <= w.at THEN r.v = "ok" /\ r.wrote = e
                     ELSE \/ r.v = "err" /\ r.io /\ (w.how # "once" => IsPrefix(r.wrote, e))
                          \/ r.v = "silent" /\ w.how = "once" /\ r.wrote = e   \* written once more
         IN  IF ~Conforms(w.ty, w.val) \/ x.c # "W" THEN [c |-> "N", why |-> {"skipped"}, bad |-> <<>>]
             ELSE [c |-> IF Len(e) <= w.at THEN "W" ELSE "F", why |-> {w.ty}, bad |-> IF good THEN <<>> ELSE <<1>>]

Init == chain \in 1..Chains /\ n = chain
Check == /\ n <= Len(Trace)
         /\ LET v == Verdict(Trace[n]) IN PrintT(<<"J", n, v.c, v.why, v.bad>>)
         /\ n' = n + Chains
         /\ UNCHANGED chain
Spec == Init /\ [][Check]_<<chain, n>>
=============================================================================
