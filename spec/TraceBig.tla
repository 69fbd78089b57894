------------------------------ MODULE TraceBig ------------------------------
(***************************************************************************)
(* Validates recorded decodings of objects that are too large to be        *)
(* evaluated here byte by byte: a head, a part repeated n times (perhaps   *)
(* with a counter in it), a tail.  The decoder's state after a repeated    *)
(* part is the state before it but for what has been collected, so the     *)
(* object is judged by the instances with one to three parts: they have to *)
(* be well-formed, and what their nodes hold has to grow by the same       *)
(* amount with each part.  Then so are all others, and their nodes hold    *)
(* what the line through these points says.                                *)
(***************************************************************************)
EXTENDS Judge, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLES chain, n

Zeros == <<48, 48, 48, 48, 48, 48, 48>>
Part(b, i) == IF b.ctr = 0 THEN b.pat
              ELSE SubSeq(b.pat, 1, b.ctr - 1) \o Zeros \o <<48 + i>> \o From(b.pat, b.ctr + 8)
Content(b, k) == b.head \o Concat([i \in 1..k |-> Part(b, i - 1)]) \o b.tail
Word(ty) == CASE ty = "blob" -> L_Blob [] ty = "tree" -> L_Tree [] ty = "commit" -> L_Commit [] ty = "tag" -> L_Tag
Inst(b, k) == LET s == Content(b, k) IN Word(b.ty) \o <<SP>> \o Dec(Len(s)) \o <<NUL>> \o s

\* How much a node holds
RECURSIVE Sum(_)
Sum(xs) == IF xs = <<>> THEN 0 ELSE xs[1] + Sum(Tail(xs))
SizeTag(o) == Len(o.type) + Len(o.tag) + Len(o.message)
Size(o) ==
    CASE o.t = "blob" -> Len(o.bytes) - Find(NUL, o.bytes, 1)
      [] o.t = "tree" -> Sum([i \in 1..Len(o.entries) |-> 1 + Len(o.entries[i].name) + Len(o.entries[i].mode)])
      [] o.t = "tag" -> SizeTag(o)
      [] o.t = "commit" -> Len(o.parents) + Len(o.message)
                           + Sum([i \in 1..Len(o.encoding) |-> Len(o.encoding[i])])
                           + Sum([i \in 1..Len(o.signature) |-> Len(o.signature[i])])
                           + Sum([i \in 1..Len(o.other) |-> 1 + Len(o.other[i])])
                           + Sum([i \in 1..Len(o.mergetag) |-> 1 + SizeTag(o.mergetag[i])])

Verdict(c) ==
    IF ~("res" \in DOMAIN c) THEN [c |-> "R", why |-> {"died"}, bad |-> <<1>>]
    ELSE LET b == c.big
             r == c.res
             a == [k \in 1..3 |-> Assess(Inst(b, k), "eof")]
             z == [k \in 1..3 |-> Size(a[k].obj)]
             regular == (\A k \in 1..3 : a[k].c = "W") /\ z[3] - z[2] = z[2] - z[1]
             good == IF b.cutn > 0 THEN r.v = "rej"
                     ELSE r.v = "ok" /\ r.same /\ r.meas = z[1] + (b.n - 1) * (z[2] - z[1])
         IN  IF ~regular THEN [c |-> "N", why |-> {b.ty}, bad |-> <<>>]
             ELSE [c |-> IF b.cutn > 0 THEN "R" ELSE "W", why |-> {b.ty}, bad |-> IF good THEN <<>> ELSE <<1>>]

Init == chain \in 1..Chains /\ n = chain
Check == /\ n <= Len(Trace)
         /\ LET v == Verdict(Trace[n]) IN PrintT(<<"J", n, v.c, v.why, v.bad>>)
         /\ n' = n + Chains
         /\ UNCHANGED chain
Spec == Init /\ [][Check]_<<chain, n>>
=============================================================================
