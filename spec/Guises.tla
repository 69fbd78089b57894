------------------------------- MODULE Guises -------------------------------
(***************************************************************************)
(* Values are put together entry by entry, in some order, perhaps with a   *)
(* fault, and encoded in some guise.                                       *)
(*                                                                         *)
(* The invariants say that what is encoded depends on the value only, that *)
(* it is right whenever git allows the object, and that a value with a     *)
(* fault is never encoded as another object.                               *)
(*                                                                         *)
(* Each behaviour that ends is printed as a case for the implementation.   *)
(***************************************************************************)
EXTENDS Encoder, TLC, Json, FiniteSets

CONSTANTS Kinds,        \* types whose values are built
          Pool(_, _),   \* type and key: the values tried for the entry
          Scalars(_),   \* type: the values tried for a type without entries
          Orders(_),    \* type: the orders (sequences of keys) tried
          Forms,        \* guises
          Faults        \* subset of {"none", "drop", "extra", "twice", "null", "kind"}

VARIABLES ty, val, order, form, fault, done

vars == <<ty, val, order, form, fault, done>>

Entries == Structs \cup {"Tree"}

Init == /\ ty \in Kinds
        /\ fault \in Faults
        /\ form \in Forms
        /\ order \in (IF ty \in Entries THEN Orders(ty) ELSE {<<>>})
        /\ val \in (IF ty \in Entries THEN {VMap(<<>>, <<>>)} ELSE Scalars(ty))
        /\ done = FALSE

Required(key) == ty \in Structs /\ ~Fields(ty)[FieldAt(ty, key)].opt

\* The next entry in the chosen order
Put == /\ ~done /\ order # <<>>
       /\ \E v \in Pool(ty, Head(order)) : val' = VMap(Append(val.ks, Head(order)), Append(val.vs, v))
       /\ order' = Tail(order)
       /\ UNCHANGED <<ty, form, fault, done>>

Skip == /\ ~done /\ order # <<>> /\ ~Required(Head(order))
        /\ order' = Tail(order)
        /\ UNCHANGED <<ty, val, form, fault, done>>

\* --- faults, when the value is complete

Ready == ~done /\ order = <<>>
Spoiled(v) == val' = v /\ fault' = "none" /\ UNCHANGED <<ty, order, form, done>>

Drop1 == /\ Ready /\ fault = "drop"
         /\ \E i \in 1..Len(val.ks) : Spoiled(VMap(RemoveAt(val.ks, i), RemoveAt(val.vs, i)))
Extra == /\ Ready /\ fault = "extra" /\ val.k = "map"
         /\ \E key \in {<<120>>, <<>>, L_ObjectW, L_Tree, L_MessageK, L_Tag} :
              ~HasKey(val, key) /\ Spoiled(VMap(Append(val.ks, key), Append(val.vs, VString(<<120>>))))
Twice == /\ Ready /\ fault = "twice"
         /\ \E i \in 1..Len(val.ks) : Spoiled(VMap(Append(val.ks, val.ks[i]), Append(val.vs, val.vs[i])))
Null == /\ Ready /\ fault = "null"
        /\ \E i \in 1..Len(val.ks) : Spoiled(VMap(val.ks, [val.vs EXCEPT ![i] = VNull]))
OtherKind(v) == CASE v.k = "string" -> VBytes(v.s) [] v.k = "link" -> VString(v.s)
                  [] v.k = "list" -> VMap(<<>>, <<>>) [] v.k = "map" -> VList(v.vs) [] OTHER -> VString(<<>>)
Kind == /\ Ready /\ fault = "kind"
        /\ \/ \E i \in 1..Len(val.ks) : Spoiled(VMap(val.ks, [val.vs EXCEPT ![i] = OtherKind(val.vs[i])]))
           \/ Spoiled(OtherKind(val))

\* --- encoded

\* nodes of other implementations
Disguises == {"foreign", "optional", "bind", "bindrepr", "mixed"}
Generics == {"any", "anyjson", "anycbor"} \cup Disguises

Answer == IF form \in Generics THEN Generic(val)
          ELSE IF Conforms(ty, val) THEN Typed(ty, val)
          ELSE [c |-> "N", why |-> {"refused"}, objs |-> <<>>]

Via == CASE form \in {"json", "anyjson"} -> "dagjson" [] form \in {"cbor", "anycbor"} -> "dagcbor" [] form \in Disguises -> form [] OTHER -> ""
Form == CASE form \in {"json", "cbor"} -> "type" [] form \in Generics -> "any" [] form = "keys" -> "type" [] OTHER -> form

Encode == /\ Ready /\ fault = "none"
          /\ PrintT(<<"V", ToJson([ty |-> ty, form |-> Form, via |-> Via, keys |-> form = "keys", val |-> val])>>)
          /\ done' = TRUE
          /\ UNCHANGED <<ty, val, order, form, fault>>

Next == Put \/ Skip \/ Drop1 \/ Extra \/ Twice \/ Null \/ Kind \/ Encode

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Encoded == Answer.objs # <<>>

\* The bytes follow from the value: as a typed node, its representation with
\* the entries in any order, or a generic node, they are the same.
OneEncoding ==
    done /\ Conforms(ty, val) /\ ty \in Objects =>
        LET a == Typed(ty, val)
            b == Generic(Shown(ty, val, "repr"))
            c == Generic(val)
        IN  /\ \A x \in {a, b, c} : x.objs # <<>> => x.objs = a.objs
            /\ ty # "Tree" => a.c = b.c /\ b.c = c.c

\* A value of an object's type is encoded, exactly if its links are git's
Encodable == done /\ Conforms(ty, val) /\ ty \in Objects => (Encoded <=> AllGit(val))

\* What git allows survives
Survives == done /\ Encoded /\ GitAllows(Answer.objs[1]) =>
              LET o == Answer.objs[1]
                  r == Run(Enc(o), "eof")
              IN  r.ph = "ok" /\ r.obj = o /\ r.dev = {} /\ SameValue(ValOf(o), ValOf(r.obj))

\* The value can be told from the bytes, if all of its links are git's own
Value == done /\ Conforms(ty, val) /\ ty \in Objects /\ AllOwn(val) =>
           ValOf(ObjOf(ty, val)) = Shown(ty, val, "repr")

\* The header says how long the object is
TrueLength == done /\ Encoded /\ Answer.objs[1].t # "blob" =>
                LET e == Enc(Answer.objs[1])
                    z == Find(NUL, e, 1)
                    a == Atoi(SubSeq(e, Find(SP, e, 1) + 1, z - 1))
                IN  a.ok /\ a.canon /\ a.v = Len(e) - z

\* A fault is never encoded as an object of the type, but for a tag's
\* leniency with further entries and the missing tagger
NoDisguise == done /\ form \in Generics /\ Encoded =>
                \/ \E t \in Objects : Conforms(t, val)
                \/ HasKey(val, L_ObjectW) /\ Answer.why = {"lenient"}
=============================================================================
