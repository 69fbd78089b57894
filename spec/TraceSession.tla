---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Validates recorded sessions: each answer, and all registers as they are *)
(* read at the end.  Sequences of commands that ran concurrently each      *)
(* behave as if they had run alone, from the state in which they started.  *)
(***************************************************************************)
EXTENDS Sessions, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLES chain, n

Shows(ty, v, dm) == dm = Shown(ty, v, "type") \/ dm = Shown(ty, v, "repr")

Same(t, r) == Len(t) = Len(r) /\ \A i \in 1..Len(t) : Shows(t[i].ty, t[i].v, r[i])

\* An answer that is not decided here ends what can be judged
RECURSIVE Follow(_, _, _, _)
Follow(s, cmds, rs, i) ==
    IF i > Len(cmds) THEN [s |-> s, bad |-> <<>>, open |-> FALSE]
    ELSE IF i > Len(rs) THEN [s |-> s, bad |-> <<i>>, open |-> FALSE]
    ELSE LET d == Do(s, cmds[i])
         IN  IF ~Fits(s, cmds[i]) /\ rs[i].r = "skip" THEN Follow(s, cmds, rs, i + 1)
             ELSE IF ~Fits(s, cmds[i]) \/ d.ok = "any" THEN [s |-> s, bad |-> <<>>, open |-> TRUE]
             ELSE IF rs[i].r # d.ok \/ (d.ok = "ok" /\ ~Same(d.t, rs[i].t)) THEN [s |-> s, bad |-> <<i>>, open |-> FALSE]
             ELSE Follow(d.s, cmds, rs, i + 1)

Verdict(c) ==
    IF ~("res" \in DOMAIN c) THEN [c |-> "R", why |-> {"died"}, bad |-> <<1>>]
    ELSE LET f == Follow(S0(c.sess.bufs), c.sess.cmds, c.res.seq, 1)
             par == IF f.open \/ f.bad # <<>> THEN {}
                    ELSE {i \in 1..Len(c.sess.par) : i > Len(c.res.par) \/ Follow([f.s EXCEPT !.nb = ""], c.sess.par[i], c.res.par[i], 1).bad # <<>>}
             end == \A i \in 1..Len(f.s.regs) : i <= Len(c.res.end) /\ Shows(f.s.regs[i].ty, f.s.regs[i].v, c.res.end[i])
         IN  IF f.bad # <<>> THEN [c |-> "W", why |-> {c.sess.cmds[f.bad[1]].op}, bad |-> f.bad]
             ELSE IF par # {} THEN [c |-> "W", why |-> {"par"}, bad |-> SetToSeq(par)]
             ELSE IF ~end THEN [c |-> "W", why |-> {"end"}, bad |-> <<1>>]
             ELSE [c |-> IF f.open THEN "K" ELSE "W", why |-> {"session"}, bad |-> <<>>]

Init == chain \in 1..Chains /\ n = chain
Check == /\ n <= Len(Trace)
         /\ LET v == Verdict(Trace[n]) IN PrintT(<<"J", n, v.c, v.why, v.bad>>)
         /\ n' = n + Chains
         /\ UNCHANGED chain
Spec == Init /\ [][Check]_<<chain, n>>
=============================================================================
