----------------------------- MODULE TraceEntry -----------------------------
(***************************************************************************)
(* Validates recorded decodings by the entry points that take more than    *)
(* the bytes of an object:                                                 *)
(*   zip    a zlib stream, perhaps damaged                                 *)
(*   blk    a block under some CID                                         *)
(*   wrong  the builders of all types, whether they fit the object or not  *)
(*   ent    the entries of a tree, one by one, without the tree's header    *)
(***************************************************************************)
EXTENDS Schema, Judge, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLES chain, n

Bad(outs, good(_)) == SelectSeq([i \in 1..Len(outs) |-> i], LAMBDA i : ~good(outs[i]))

\* What a stream inflates to is the standard library's word: a stream that
\* does not inflate is not an object.  If the reader fails, the failure is
\* reported unless what came before is malformed already.
Stream(c) ==
    LET a == Assess(c.res.plain, "eof")
        f == Assess(c.res.plain, "err")
    IN  IF c.cut = "err" /\ ~c.res.ok
        THEN [c |-> f.c, why |-> f.why, bad |-> Bad(c.res.outs, LAMBDA o : Rejected(o) /\ (o.io \/ f.c \notin {"F", "E"}))]
        ELSE IF ~c.res.ok THEN [c |-> "R", why |-> {"stream"}, bad |-> Bad(c.res.outs, Rejected)]
        ELSE IF c.cut = "err" THEN [c |-> "E", why |-> a.why, bad |-> Bad(c.res.outs, LAMBDA o : Rejected(o) \/ Allowed(c.res.plain, a, o))]
        ELSE [c |-> a.c, why |-> a.why, bad |-> Bad(c.res.outs, LAMBDA o : Allowed(c.res.plain, a, o))]

\* A block is decoded if its CID is one of git's: of version 1, the git codec,
\* and SHA-1 with 20 bytes.  The digest is not looked at.
Block(c) ==
    LET p == ParseCid(c.blk.cid)
        git == p.ok /\ p.version = 1 /\ p.codec = GitCodecCode /\ p.mh = Sha1Code /\ p.len = HashLen
        a == Assess(c.inp, "eof")
    IN  IF ~git THEN [c |-> "R", why |-> {"cid"}, bad |-> Bad(c.res.outs, Rejected)]
        ELSE [c |-> a.c, why |-> a.why, bad |-> Bad(c.res.outs, LAMBDA o : Allowed(c.inp, a, o))]

\* A builder takes the object of its own type, and generic ones what is of
\* their kind; no other builder takes it.
Wrong(c) ==
    LET a == Assess(c.inp, "eof")
        ty == TypeOf(a.obj)
        shown == {Shown(ty, ValOf(a.obj), "type"), Shown(ty, ValOf(a.obj), "repr")}
        \* Known: go-ipld-prime's map builder panics when it is given a map
        known(w) == w.own /\ w.v = "panic" /\ w.who = <<"basic.Map">>
        good(w) == CASE known(w) -> TRUE
                     [] a.c = "R" \/ ~w.own -> w.v = "rej"
                     [] a.c = "W" -> w.v = "ok" /\ w.dm \in shown
                     [] a.c = "K" -> w.v = "rej" \/ (w.v = "ok" /\ w.dm \in shown)
                     [] OTHER -> w.v \in {"ok", "rej"}
    IN  IF \E i \in 1..Len(c.res) : known(c.res[i]) THEN [c |-> "K", why |-> {"basicmap"}, bad |-> Bad(c.res, good)]
        ELSE [c |-> a.c, why |-> a.why, bad |-> Bad(c.res, good)]

\* The entries that stand in front of an input.  No header says how long they
\* are together, and a name may come again.
RECURSIVE EntriesFrom(_, _)
EntriesFrom(inp, d) ==
    LET x == ReadEntry(inp, "eof", [d EXCEPT !.obj.entries = <<>>])
    IN  IF x.ph # "tree" THEN <<>>
        ELSE <<[e |-> x.obj.entries[1], pos |-> x.pos]>> \o EntriesFrom(inp, x)

Min2(a, b) == IF a < b THEN a ELSE b

Entries(c) ==
    LET es == EntriesFrom(c.inp, [Start EXCEPT !.ph = "tree", !.obj = EmptyTree])
        V(e) == ValOf([t |-> "tree", entries |-> <<e>>]).vs[1]
        \* A failure of the reader right behind an entry may go unnoticed: what
        \* was asked for had arrived
        edge == /\ c.cut = "err"
                /\ IF es = <<>> THEN c.inp = <<>> ELSE es[Len(es)].pos > Len(c.inp)
        same(x, e) == /\ x.name = e.name
                      /\ \A i \in 1..Len(x.vals) : x.vals[i] = Shown("TreeEntry", V(e), IF i = 1 THEN "type" ELSE "repr")
        first(o, k) == \A i \in 1..k : same(o.ents[i], es[i].e)
        \* A failure of the reader may be reported before the entries in front of it
        good(o) == /\ o.v = "rej" /\ ~o.both
                   /\ CASE c.cut = "eof" -> Len(o.ents) = Len(es) /\ first(o, Len(es))
                        [] edge -> first(o, Min2(Len(o.ents), Len(es)))
                        [] OTHER -> o.io /\ Len(o.ents) <= Len(es) /\ first(o, Len(o.ents))
    IN  [c |-> IF c.cut = "err" THEN "F" ELSE "W", why |-> {"entries"}, bad |-> Bad(c.res, good)]

Verdict(c) ==
    CASE ~("res" \in DOMAIN c) -> [c |-> "R", why |-> {"died"}, bad |-> <<1>>]
      [] c.k = "zip" -> Stream(c)
      [] c.k = "blk" -> Block(c)
      [] c.k = "wrong" -> Wrong(c)
      [] c.k = "ent" -> Entries(c)

Init == chain \in 1..Chains /\ n = chain
Check == /\ n <= Len(Trace)
         /\ LET v == Verdict(Trace[n]) IN PrintT(<<"J", n, v.c, v.why, v.bad>>)
         /\ n' = n + Chains
         /\ UNCHANGED chain
Spec == Init /\ [][Check]_<<chain, n>>
=============================================================================
