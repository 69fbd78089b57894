---------------------------- MODULE TraceEncode ----------------------------
(***************************************************************************)
(* Validates recorded encodings.  A case is a value that was assembled in  *)
(* some guise (a builder of a type or of its representation, the           *)
(* representation of a typed node, a generic node, or any of these through *)
(* another codec and back), what the node shows when it is read, and what  *)
(* the encoder made of it.                                                 *)
(*                                                                         *)
(* What the encoder may do depends on the value only:                      *)
(*   W  the bytes of the object, exactly                                   *)
(*   R  an error, and nothing written                                      *)
(*   K  either of the two (leniencies that are known findings)             *)
(*   N  the value is not one of the type: the builder refuses it           *)
(***************************************************************************)
EXTENDS Encoder, Judge, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLES chain, n

Expected(e, r) == IF e.form = "any" \/ e.via # "" THEN Generic(r.seen) ELSE Typed(e.ty, e.val)

\* A tree's names may be repeated by way of AssembleKey: a known finding
Repeats(e) == e.keys /\ e.ty = "Tree" /\ e.val.k = "map" /\ ~Distinct(e.val.ks)

Seen(e, r) == CASE e.form \in {"type", "repr"} -> r.seen = Shown(e.ty, e.val, "type")
                [] e.form = "typerepr" -> r.seen = Shown(e.ty, e.val, "repr")
                [] e.form = "any" -> r.seen = e.val
                [] OTHER -> FALSE

RoundTrips(o, r) ==
    LET a == Assess(r.enc, "eof")
    IN  /\ \A i \in 1..Len(r.dec) : Allowed(r.enc, a, r.dec[i])
        /\ GitAllows(o) => Len(r.dec) >= 1 /\ a.c = "W" /\ a.obj = o

\* The specification's own claim behind it
Survives(o) == GitAllows(o) => LET r == Run(Enc(o), "eof") IN r.ph = "ok" /\ r.obj = o /\ r.dev = {}

Lost(c) == ~("res" \in DOMAIN c)

Verdict(c) ==
    IF Lost(c) THEN [c |-> "R", why |-> {"died"}, bad |-> <<1>>]
    ELSE
    LET e == c.e
        r == c.res
        typed == e.form # "any"
        x == Expected(e, r)
        o == x.objs[1]
        isErr == r.v = "err"
        isObj == r.v = "ok" /\ x.objs # <<>> /\ r.enc = Enc(o) /\ r.two /\ RoundTrips(o, r)
        good == CASE x.c = "W" -> isObj [] x.c = "R" -> isErr [] x.c = "K" -> isErr \/ isObj
    IN  IF typed /\ ~Conforms(e.ty, e.val)
        THEN IF Repeats(e) /\ r.v \in {"ok", "err"} THEN [c |-> "K", why |-> {"repeated"}, bad |-> <<>>]
             ELSE [c |-> "N", why |-> {"refused"}, bad |-> IF r.v = "refused" THEN <<>> ELSE <<1>>]
        ELSE IF r.v = "via" THEN [c |-> "V", why |-> {"via"}, bad |-> <<>>]
        ELSE IF e.form = "any" /\ r.v = "refused" THEN [c |-> "N", why |-> {"any"}, bad |-> <<>>]
        ELSE IF r.v \in {"refused", "bpanic"} \/ (e.via = "" /\ ~Seen(e, r))
        THEN [c |-> "N", why |-> {"accepted"}, bad |-> <<1>>]
        ELSE IF x.objs # <<>> /\ ~Survives(o) THEN [c |-> "BUG", why |-> {o.t}, bad |-> <<1>>]
        ELSE [c |-> x.c, why |-> x.why, bad |-> IF good THEN <<>> ELSE <<1>>]

Init == chain \in 1..Chains /\ n = chain
Check == /\ n <= Len(Trace)
         /\ LET v == Verdict(Trace[n]) IN PrintT(<<"J", n, v.c, v.why, v.bad>>)
         /\ n' = n + Chains
         /\ UNCHANGED chain
Spec == Init /\ [][Check]_<<chain, n>>
=============================================================================
