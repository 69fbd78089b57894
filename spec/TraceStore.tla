----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Validates recorded histories of a link system that uses the codec.      *)
(***************************************************************************)
EXTENDS Store, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLES chain, n

Shows(ty, v, dm) == dm = Shown(ty, v, "type") \/ dm = Shown(ty, v, "repr")

\* SHA1 takes its time: for long objects the standard library's word is taken
Long == 600
Id(e, r) == IF Len(e) > Long /\ e = r.raw THEN r.sum ELSE SHA1(e)

\* One command: [items, ok]
Step1(items, cmd, r) ==
    CASE cmd.op = "put" ->
           LET v == Resolve(cmd.val, Linked(items))
               x == Typed(cmd.ty, v)
               it == ItemAt(cmd.ty, v, LAMBDA e : Id(e, r))
               fit == Conforms(cmd.ty, v) /\ x.c = "W"
           IN  IF fit THEN [items |-> Append(items, it), ok |-> r.r = "ok" /\ r.raw = it.raw /\ r.lnk = it.lnk /\ r.val = v]
               ELSE [items |-> items, ok |-> r.r = "err"]
      [] cmd.op = "get" ->
           LET it == items[cmd.i + 1]
               wrong == cmd.form # "any" /\ cmd.ty # it.ty
           IN  [items |-> items, ok |-> IF wrong \/ it.c = "R" THEN r.r = "err"
                                        ELSE IF it.c = "W" THEN r.r = "ok" /\ Len(r.got) = 1 /\ Shows(it.ty, it.val, r.got[1])
                                        ELSE r.r \in {"ok", "err"}]
      [] cmd.op = "walk" ->
           LET w == Start0(items, cmd.i + 1, cmd.val.ks, cmd.form = "typed")
               \* Everything on the way has to be decodable
               all == \A i \in 1..Len(items) : items[i].c = "W"
           IN  [items |-> items,
                ok |-> IF ~all THEN r.r \in {"ok", "err"}
                       ELSE IF w.ok THEN r.r = "ok" /\ r.seen = w.seen /\ Len(r.got) = 1 /\ Shows(w.ty, w.v, r.got[1])
                       ELSE r.r = "err" \/ (r.r = "ok" /\ r.got[1].k = "absent")]

RECURSIVE Replay(_, _, _, _)
Replay(items, cmds, res, i) ==
    IF i > Len(cmds) THEN <<>>
    ELSE IF i > Len(res) THEN <<i>>
    ELSE LET s == Step1(items, cmds[i], res[i])
         IN  IF ~s.ok THEN <<i>> ELSE Replay(s.items, cmds, res, i + 1)

Verdict(c) ==
    IF ~("res" \in DOMAIN c) THEN [c |-> "R", why |-> {"died"}, bad |-> <<1>>]
    ELSE LET b == Replay(<<>>, c.store.cmds, c.res, 1)
         IN  [c |-> "W", why |-> {IF b = <<>> THEN "history" ELSE c.store.cmds[b[1]].op}, bad |-> b]

Init == chain \in 1..Chains /\ n = chain
Check == /\ n <= Len(Trace)
         /\ LET v == Verdict(Trace[n]) IN PrintT(<<"J", n, v.c, v.why, v.bad>>)
         /\ n' = n + Chains
         /\ UNCHANGED chain
Spec == Init /\ [][Check]_<<chain, n>>
=============================================================================
