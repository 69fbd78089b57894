------------------------------ MODULE Encoder ------------------------------
(***************************************************************************)
(* What the encoder makes of a node: decided by its type if it has one of  *)
(* the package's, and otherwise by what it holds.                          *)
(*   W  the bytes of the object, exactly                                   *)
(*   R  an error, and nothing written                                      *)
(*   K  either of the two (leniencies that are known findings)             *)
(***************************************************************************)
EXTENDS Schema

AllGit(v) == \A l \in Links(v) : NamesGit(l)
AllOwn(v) == \A l \in Links(v) : IsGitCid(l)

Bytes4(c, obj, why) == [c |-> c, why |-> {why}, objs |-> <<obj>>]
Error4(why) == [c |-> "R", why |-> {why}, objs |-> <<>>]

\* A value of an object's type.  A digest is what git needs; whether the
\* codec of a CID matters is left open.
Object(ty, v) == IF ~AllGit(v) THEN Error4("link")
                 ELSE Bytes4(IF AllOwn(v) THEN "W" ELSE "K", ObjOf(ty, v), ty)

\* A generic map with an object is a tag.  The encoder reads what it needs:
\* other entries are ignored, and the tagger may be missing.
LenientTag(v) ==
    LET has(key, k) == HasKey(v, key) /\ Get(v, key).k = k
        tg == IF ~HasKey(v, L_TaggerW) \/ Get(v, L_TaggerW).k \in {"null", "absent"} THEN <<NoPerson>>
              ELSE IF Conforms("PersonInfo", Get(v, L_TaggerW)) THEN <<PersonOf(Get(v, L_TaggerW))>> ELSE <<>>
    IN  IF has(L_ObjectW, "link") /\ has(L_TypeW, "string") /\ has(L_Tag, "string") /\ has(L_MessageK, "string")
           /\ tg # <<>> /\ NamesGit(Get(v, L_ObjectW).s)
        THEN Bytes4("K", [t |-> "tag", object |-> Digest(Get(v, L_ObjectW).s), type |-> Get(v, L_TypeW).s,
                          tag |-> Get(v, L_Tag).s, tagger |-> tg[1], message |-> Get(v, L_MessageK).s], "lenient")
        ELSE Error4("nottag")

\* A typed node of another schema library shows an optional field that is not
\* there as an absent entry
Present(v) == LET at == SelectSeq([i \in 1..Len(v.ks) |-> i], LAMBDA i : v.vs[i].k # "absent")
              IN  [v EXCEPT !.ks = [i \in 1..Len(at) |-> v.ks[at[i]]], !.vs = [i \in 1..Len(at) |-> v.vs[at[i]]]]

Entails(v) ==
    CASE v.k = "bytes" -> Bytes4("W", [t |-> "blob", bytes |-> v.s], "bytes")
      [] v.k # "map" -> Error4("kind")
      [] Conforms("Tag", v) -> Object("Tag", v)
      [] Conforms("Commit", v) -> Object("Commit", v)
      [] Conforms("Tree", v) /\ AllGit(v) -> Bytes4("K", ObjOf("Tree", v), "generictree")
      [] HasKey(v, L_ObjectW) -> LenientTag(v)
      [] OTHER -> Error4("map")

Generic(v) == Entails(IF v.k = "map" THEN Present(v) ELSE v)

\* A node of the package's types
Typed(ty, v) == IF ty \in Objects THEN Object(ty, v) ELSE Error4("type")

=============================================================================
