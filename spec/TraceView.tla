----------------------------- MODULE TraceView -----------------------------
(***************************************************************************)
(* Validates recorded readings: a node was built or decoded, and every     *)
(* method of it and of the nodes below it was called, at the type level    *)
(* and at the representation level.                                        *)
(***************************************************************************)
EXTENDS Reading, Judge, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 8
VARIABLES chain, n

\* What was answered: 0 is an error, -1 a panic
Said(t, r, ans) == IF r <= 0 THEN r = 0 /\ ans = Err ELSE ans # Err /\ t[r] = ans[1]

\* Known: the generated code panics when a tree is looked up by a node that
\* is not of the package's String type, and a list by a negative index.
Panics(q, a) == /\ a.r = -1
                /\ \/ q.ty = "Tree" /\ a.how \in {"basicnode", "nodei"}
                   \/ q.k = "list" /\ a.i < 0

LookOK(t, q, v, a) ==
    \/ Panics(q, a)
    \/ CASE a.how \in {"string", "node", "basicnode"} -> Said(t, a.r, ByKey(v, a.key))
         [] a.how \in {"segment", "segmentsi"} -> Said(t, a.r, BySegment(v, a.key))
                                       \/ (v.k = "list" /\ ~Number(a.key) /\ a.key # <<>> /\ a.key[1] \in {43, 45, 48})
         [] a.how = "segmenti" -> Said(t, a.r, IF v.k = "list" THEN ByIndex(v, a.i) ELSE ByKey(v, a.key))
         [] a.how = "index" -> Said(t, a.r, ByIndex(v, a.i))
         [] a.how = "nodei" -> Said(t, a.r, ByIndex(v, a.i))

AsOK(t, v, a) == Said(t, a.r, AsKind(v, a.how))

TypedOK(t, q, v, a, i) ==
    CASE a.how = "field" -> Said(t, a.r, ByKey(v, a.key))
      [] a.how = "maybe" -> LET x == Get(v, a.key)
                            IN  IF x.k = "absent" THEN a.i = 2 /\ a.r = -1 ELSE a.i = 1 /\ Said(t, a.r, <<x>>)
      [] a.how = "self" -> Said(t, a.r, <<v>>)
      [] a.how = "git" -> Said(t, a.r, <<VString(PersonString(PersonOf(v)))>>)
      [] a.how = "target" -> TRUE
      [] a.how = "entry" -> a.i >= 0 /\ a.i < Len(v.ks) /\ v.ks[a.i + 1] = a.key /\ Said(t, a.r, <<v.vs[a.i + 1]>>)
      [] a.how = "index" -> Said(t, a.r, ByIndex(v, a.i))

ItOK(t, q, v) ==
    /\ q.mi = (v.k = "map") /\ q.li = (v.k = "list")
    /\ Len(q.it) = (IF v.k \in {"map", "list"} THEN Len(v.vs) ELSE 0) \/ Len(q.it) = 300
    /\ \A i \in 1..Len(q.it) :
         /\ q.it[i].i = i - 1
         /\ q.it[i].r > 0 /\ t[q.it[i].r] = v.vs[i]
         /\ v.k = "map" => q.it[i].key = v.ks[i]
    /\ \A i \in 1..Len(q.over) : q.over[i] = 0

\* A link says what it leads to, at either level
TargetOK(ty, key) == CASE Target(ty) = "Tree" -> HasPrefix(key, L_TreeSl)
                       [] Target(ty) = "Commit" -> HasPrefix(key, L_CommitSl)
                       [] OTHER -> TRUE

\* One node: e is what it should be (its type, value and depth)
NodeFault(t, q, e) ==
    CASE q.v <= 0 \/ t[q.v] # e.v -> "value"
      [] q.depth # e.depth -> "depth"
      [] e.ty # "" /\ e.v.k # "absent" /\ q.ty # e.ty -> "type"
      [] q.k # Kind(e.v) -> "kind"
      [] q.len # Length(e.v) -> "length"
      [] q.abs # (e.v.k = "absent") \/ q.null # (e.v.k = "null") -> "null"
      [] ~(\A i \in 1..Len(q.as) : AsOK(t, e.v, q.as[i])) -> "scalar"
      [] ~(\A i \in 1..Len(q.look) : LookOK(t, q, e.v, q.look[i])) -> "lookup"
      [] ~(\A i \in 1..Len(q.typed) : TypedOK(t, q, e.v, q.typed[i], i)) -> "typed"
      [] ~ItOK(t, q, e.v) -> "iteration"
      [] ~(\A i \in 1..Len(q.typed) : q.typed[i].how = "target" => TargetOK(e.ty, q.typed[i].key)) -> "target"
      [] OTHER -> ""

ViewFaults(w, ty, val) ==
    LET all == Below(ty, Shown(ty, val, "type"), 0) \o Below(ty, Shown(ty, val, "repr"), 0)
        m   == Len(w.nodes)
    IN  IF m # Len(all) /\ ~(m < Len(all) /\ m > 400) THEN {"nodes"}
        ELSE IF m > 400 THEN {}  \* too many to have been recorded
        ELSE {NodeFault(w.tbl, w.nodes[i], all[i]) : i \in 1..m} \ {""}

Known(w) == \E i \in 1..Len(w.nodes) : \E j \in 1..Len(w.nodes[i].look) : Panics(w.nodes[i], w.nodes[i].look[j])

Verdict(c) ==
    IF ~("res" \in DOMAIN c) THEN [c |-> "R", why |-> {"died"}, bad |-> <<1>>]
    ELSE IF c.w.ty = ""
    THEN LET a == Assess(c.inp, "eof")
             f == ViewFaults(c.res.view, TypeOf(a.obj), ValOf(a.obj))
         IN  IF a.c = "BUG" THEN [c |-> "BUG", why |-> {}, bad |-> <<>>]
             ELSE IF a.c \in {"R", "G"} THEN [c |-> a.c, why |-> a.why, bad |-> IF c.res.v = "rej" \/ a.c = "G" THEN <<>> ELSE <<1>>]
             ELSE IF a.c = "K" /\ c.res.v = "rej" THEN [c |-> "K", why |-> a.why, bad |-> <<>>]
             ELSE IF c.res.v # "ok" THEN [c |-> a.c, why |-> {"rejected"}, bad |-> <<1>>]
             ELSE [c |-> IF Known(c.res.view) THEN "K" ELSE a.c, why |-> IF f = {} THEN {a.obj.t} ELSE f, bad |-> IF f = {} THEN <<>> ELSE <<1>>]
    ELSE IF ~Conforms(c.w.ty, c.w.val)
    THEN [c |-> "N", why |-> {"refused"}, bad |-> IF c.res.v = "rej" THEN <<>> ELSE <<1>>]
    ELSE LET f == ViewFaults(c.res.view, c.w.ty, c.w.val)
         IN  IF c.res.v # "ok" THEN [c |-> "W", why |-> {"notbuilt"}, bad |-> <<1>>]
             ELSE [c |-> IF Known(c.res.view) THEN "K" ELSE "W", why |-> IF f = {} THEN {c.w.ty} ELSE f, bad |-> IF f = {} THEN <<>> ELSE <<1>>]

Init == chain \in 1..Chains /\ n = chain
Check == /\ n <= Len(Trace)
         /\ LET v == Verdict(Trace[n]) IN PrintT(<<"J", n, v.c, v.why, v.bad>>)
         /\ n' = n + Chains
         /\ UNCHANGED chain
Spec == Init /\ [][Check]_<<chain, n>>
=============================================================================
