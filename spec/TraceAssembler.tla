--------------------------- MODULE TraceAssembler ---------------------------
(* Validates recorded uses of a builder, call by call *)
EXTENDS Assembler, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLES chain, n

\* A value as it reads without what is absent
RECURSIVE Strip(_)
Strip(v) == IF v.k = "map"
            THEN LET is == SelectSeq([i \in 1..Len(v.ks) |-> i], LAMBDA i : v.vs[i].k # "absent")
                 IN  VMap([j \in 1..Len(is) |-> v.ks[is[j]]], [j \in 1..Len(is) |-> Strip(v.vs[is[j]])])
            ELSE IF v.k = "list" THEN VList([i \in 1..Len(v.vs) |-> Strip(v.vs[i])]) ELSE v

RECURSIVE Follow(_, _, _, _)
Follow(s, cmds, rs, i) ==
    IF i > Len(cmds) THEN [bad |-> <<>>, st |-> s.st, op |-> "end"]
    ELSE IF i > Len(rs) THEN [bad |-> IF i > 1 /\ rs[i - 1].r = "panic" THEN <<>> ELSE <<i>>, st |-> s.st, op |-> "end"]
    ELSE LET a == Step(s, cmds[i])
             r == rs[i].r
             shown == CASE r # "ok" \/ cmds[i].op # "build" -> TRUE
                        [] s.st = "go" -> rs[i].t = a.t
                        [] s.st = "spoiled" -> Len(rs[i].t) >= 1 /\ Conforms(s.ty, Strip(rs[i].t[1]))
                        [] OTHER -> TRUE
         IN  IF r \notin a.may \/ ~shown THEN [bad |-> <<i>>, st |-> s.st, op |-> cmds[i].op]
             ELSE Follow(IF r = "ok" THEN a.ok ELSE a.err, cmds, rs, i + 1)

\* Known findings, wherever they come up
Verdict(c) ==
    IF ~("res" \in DOMAIN c) THEN [c |-> "R", why |-> {"died"}, bad |-> <<1>>]
    ELSE LET f == Follow(A0(c.asm.ty), c.asm.cmds, c.res, 1)
         IN  [c |-> IF f.bad = <<>> /\ f.st = "open" THEN "K" ELSE "W",
              why |-> {c.asm.ty, f.op}, bad |-> f.bad]

Init == chain \in 1..Chains /\ n = chain
Check == /\ n <= Len(Trace)
         /\ LET v == Verdict(Trace[n]) IN PrintT(<<"J", n, v.c, v.why, v.bad>>)
         /\ n' = n + Chains
         /\ UNCHANGED chain
Spec == Init /\ [][Check]_<<chain, n>>
=============================================================================
