-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* The encoder and the writer it writes to.  The encoder hands over the    *)
(* object in order, in any number of writes; the writer fails at some      *)
(* write, of which it takes any number of bytes, and from then on takes    *)
(* nothing ("cut", "none") or everything ("once", which an encoder that    *)
(* has stopped does not find out).                                         *)
(*                                                                         *)
(* Checked: what was written is a prefix of the object at any time, the    *)
(* encoder reports success exactly if everything was taken, and it stops   *)
(* at the first failure.                                                   *)
(***************************************************************************)
EXTENDS Schema, TLC, Json

CONSTANTS Objs       \* git objects

VARIABLES obj, enc, wrote, failed, result

vars == <<obj, enc, wrote, failed, result>>

Init == /\ obj \in Objs
        /\ enc = Enc(obj)
        /\ wrote = 0 /\ failed = FALSE /\ result = ""

Left == Len(enc) - wrote

\* One write, of any size, that is taken or of which k bytes are taken
Write == /\ result = "" /\ ~failed /\ Left > 0
         /\ \E k \in {1, 2, 21, Left} \cap 1..Left : wrote' = wrote + k
         /\ UNCHANGED <<obj, enc, failed, result>>

Fail == /\ result = "" /\ ~failed /\ Left > 0
        /\ failed' = TRUE
        /\ \E k \in {0, 1, Left - 1} \cap 0..(Left - 1) : wrote' = wrote + k
        /\ UNCHANGED <<obj, enc, result>>

Vector(how) == PrintT(<<"V", ToJson([ty |-> TypeOf(obj), form |-> "type", val |-> ValOf(obj), at |-> wrote, how |-> how])>>)

Return == /\ result = "" /\ (failed \/ Left = 0)
          /\ result' = IF failed THEN "err" ELSE "ok"
          /\ Vector("cut") /\ Vector("none") /\ Vector("once")
          /\ UNCHANGED <<obj, enc, wrote, failed>>

Next == Write \/ Fail \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Prefix == wrote <= Len(enc) /\ (failed => wrote < Len(enc))
Honest == /\ result = "ok" <=> (result # "" /\ wrote = Len(enc))
          /\ result = "err" <=> (result # "" /\ failed)
Returns == <>(result # "")
\* Every encoding is taken to be what the specification of the format says
Objective == enc = Enc(obj)
=============================================================================
