------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* A content-addressed store of git objects.  An object's link is the      *)
(* SHA-1 of its bytes; objects refer to each other by links; a path is     *)
(* followed from object to object.                                         *)
(***************************************************************************)
EXTENDS Encoder, SHA1

\* Links to objects of the history stand in a value as <<0, i>>: the i-th (from
\* 0) that was stored
RECURSIVE Resolve(_, _)
Resolve(v, links) ==
    IF v.k = "link" /\ Len(v.s) = 2 /\ v.s[1] = 0 THEN VLink(links[v.s[2] + 1])
    ELSE [v EXCEPT !.vs = [i \in 1..Len(v.vs) |-> Resolve(v.vs[i], links)]]

\* An object in the store: what was put there, its bytes and link, whether it
\* can be loaded ("W"; "R" if not, "K" if that is left open), and what is loaded
ItemAt(ty, v, id(_)) ==
               LET o == ObjOf(ty, v)
                   e == Enc(o)
                   r == Run(e, "eof")
                   c == IF r.ph = "ok" THEN IF r.dev = {} THEN "W" ELSE "K"
                        ELSE IF r.why \in {"sigfirst", "mergetag"} THEN "K" ELSE "R"
               IN  [ty |-> ty, put |-> v, obj |-> o, raw |-> e, lnk |-> GitCid(id(e)), c |-> c,
                    val |-> IF c = "W" THEN ValOf(r.obj) ELSE v]
Item(ty, v) == ItemAt(ty, v, SHA1)

Linked(items) == [i \in 1..Len(items) |-> items[i].lnk]
Lookup(items, lnk) == SelectInSeq(items, LAMBDA x : x.lnk = lnk)

\* The type that a link says its target has; "" if it leaves it open
Target(ty) == CASE ty = "Tree_Link" -> "Tree" [] ty = "Commit_Link" -> "Commit" [] OTHER -> ""

RECURSIVE NatOf(_, _)
NatOf(s, i) == IF i = 0 THEN 0 ELSE 10 * NatOf(s, i - 1) + (s[i] - 48)
IsIndex(s) == s # <<>> /\ Len(s) < 7 /\ (\A i \in 1..Len(s) : s[i] \in 48..57) /\ (Len(s) = 1 \/ s[1] # 48)

\* One step down from a value of a type: [ok, ty, v]
Nowhere == [ok |-> FALSE, ty |-> "", v |-> VAbsent]
Down(ty, v, seg) ==
    CASE ty \in Structs /\ IsField(ty, seg) /\ HasKey(v, seg) -> [ok |-> TRUE, ty |-> FieldType(ty, seg), v |-> Get(v, seg)]
      [] ty = "Tree" /\ HasKey(v, seg) -> [ok |-> TRUE, ty |-> "TreeEntry", v |-> Get(v, seg)]
      [] ty \in Lists /\ IsIndex(seg) /\ NatOf(seg, Len(seg)) < Len(v.vs) -> [ok |-> TRUE, ty |-> Elem(ty), v |-> v.vs[NatOf(seg, Len(seg)) + 1]]
      [] OTHER -> Nowhere

\* Following a path, loading what links refer to.  typed: into the type that
\* the link names.  Gives [ok, ty, v, seen].
RECURSIVE Walk(_, _, _, _, _, _)
Walk(items, ty, v, path, typed, seen) ==
    IF path = <<>> THEN [ok |-> TRUE, ty |-> ty, v |-> v, seen |-> seen]
    ELSE LET d == Down(ty, v, path[1])
             j == Lookup(items, d.v.s)
         IN  IF ~d.ok THEN [ok |-> FALSE, ty |-> "", v |-> VAbsent, seen |-> seen]
             ELSE IF d.v.k # "link" THEN Walk(items, d.ty, d.v, Tail(path), typed, seen)
             ELSE IF j = 0 \/ (typed /\ Target(d.ty) \notin {"", items[j].ty})
                  THEN [ok |-> FALSE, ty |-> "", v |-> VAbsent, seen |-> Append(seen, d.v.s)]
             ELSE Walk(items, items[j].ty, items[j].val, Tail(path), typed, Append(seen, d.v.s))

Start0(items, i, path, typed) == Walk(items, items[i].ty, items[i].val, path, typed, <<>>)
=============================================================================
