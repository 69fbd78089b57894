------------------------------ MODULE Reading ------------------------------
(***************************************************************************)
(* How a node is read: what each of its methods answers, given the value   *)
(* it shows (Schema.tla, Shown).  An answer is a sequence: <<>> is an      *)
(* error, <<v>> the value v.                                               *)
(***************************************************************************)
EXTENDS Schema

Err == <<>>

AsKind(v, k) == IF v.k = k THEN <<v>> ELSE Err

\* By key: maps only
ByKey(v, key) == IF v.k = "map" /\ HasKey(v, key) THEN <<Get(v, key)>> ELSE Err

\* By index: lists only
ByIndex(v, i) == IF v.k = "list" /\ i >= 0 /\ i < Len(v.vs) THEN <<v.vs[i + 1]>> ELSE Err

\* By a path segment: whatever the node is.  Segments of maps are keys, of
\* lists numbers
Number(key) == key # <<>> /\ AllDigits(key) /\ Atoi(key).canon
BySegment(v, key) == IF v.k = "list" THEN IF Number(key) THEN ByIndex(v, Atoi(key).v) ELSE Err
                     ELSE ByKey(v, key)

Length(v) == IF v.k \in {"map", "list"} THEN Len(v.vs) ELSE -1
Kind(v) == IF v.k = "absent" THEN "null" ELSE v.k

\* The nodes below a node, in the order in which they are met
RECURSIVE Below(_, _, _)
Below(ty, v, depth) ==
    LET kid(i) == CASE ty \in Structs -> FieldType(ty, v.ks[i])
                    [] ty \in Lists \cup {"Tree"} -> Elem(ty)
                    [] OTHER -> ""
    IN  <<[ty |-> ty, v |-> v, depth |-> depth]>>
          \o Concat([i \in 1..Len(v.vs) |-> Below(kid(i), v.vs[i], depth + 1)])

\* The types a link leads to
Target(ty) == CASE ty = "Tree_Link" -> "Tree" [] ty = "Commit_Link" -> "Commit" [] OTHER -> ""
=============================================================================
