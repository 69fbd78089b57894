------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The decoder and the reader it reads from.  The reader delivers the      *)
(* input piece by piece, in pieces of any size, and ends with the input or *)
(* fails at any position, with the last piece or after it; a reader that   *)
(* has failed may deliver the rest if it is read again.  The decoder takes *)
(* its next step whenever what was delivered is enough for it, and none    *)
(* after a failure that depends on more than had been delivered before.    *)
(*                                                                         *)
(* Checked: however the pieces fall, the decoder ends as it does when it   *)
(* has all the bytes at once (OneResult); a failure before the end is      *)
(* never taken for the end of the input (FaultSurfaces); the decoder never *)
(* decides on bytes that did not arrive (Causal); and it comes to an end   *)
(* (Terminates).                                                           *)
(***************************************************************************)
EXTENDS GitCodec, TLC, Json

CONSTANTS Inputs,    \* the objects on their way
          Pieces     \* sizes of the pieces

VARIABLES inp,       \* the input
          got,       \* bytes delivered
          end,       \* what the decoder has been told: "", "eof" or "err"
          with,      \* ... together with the last bytes
          late,      \* a reader that has failed would go on with the rest
          d,         \* the decoder
          done

vars == <<inp, got, end, with, late, d, done>>

Init == /\ inp \in Inputs
        /\ got = 0 /\ end = "" /\ with = FALSE /\ late = FALSE
        /\ d = Start /\ done = FALSE

Delivered == SubSeq(inp, 1, got)

\* The reader.  A failure can come at any time, the end only at the end.

Ends(g) == {"", "err"} \cup (IF g = Len(inp) THEN {"eof"} ELSE {})

Lates(g, e) == IF e = "err" /\ g < Len(inp) THEN BOOLEAN ELSE {FALSE}

Deliver == /\ end = "" /\ got < Len(inp)
           /\ \E k \in Pieces :
                /\ got' = IF got + k > Len(inp) THEN Len(inp) ELSE got + k
                /\ end' \in Ends(got')
                /\ with' = (end' # "")
                /\ late' \in Lates(got', end')
           /\ UNCHANGED <<inp, d, done>>

End == /\ end = ""
       /\ end' \in Ends(got) \ {""}
       /\ late' \in Lates(got, end')
       /\ UNCHANGED <<inp, got, with, d, done>>

\* The decoder.  As long as more may come, running out of bytes is no result.

Next1 == DecStep(Delivered, "err", d)
Enough == ~(Next1.ph = "rej" /\ Next1.why = "io")

Step == /\ ~Final(d) /\ end = "" /\ Enough
        /\ d' = Next1
        /\ UNCHANGED <<inp, got, end, with, late, done>>

LastSteps == /\ ~Final(d) /\ end # ""
             /\ d' = DecStep(Delivered, end, d)
             /\ UNCHANGED <<inp, got, end, with, late, done>>

Done == /\ Final(d) /\ end # "" /\ ~done
        /\ done' = TRUE
        /\ PrintT(<<"V", ToJson([inp |-> Delivered, cut |-> end, with |-> with, late |-> IF late THEN SubSeq(inp, got + 1, Len(inp)) ELSE <<>>])>>)
        /\ UNCHANGED <<inp, got, end, with, late, d>>

Next == Deliver \/ End \/ Step \/ LastSteps \/ Done

Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver \/ End) /\ WF_vars(Step \/ LastSteps \/ Done)

---------------------------------------------------------------------------
Whole == Run(Delivered, end)

\* What the decoder concludes does not depend on the pieces.  (Nor on the
\* end, if it has stopped early on something malformed.)
OneResult == done => d = Whole \/ (d.ph = "rej" /\ Whole.ph = "rej")

FaultSurfaces == end = "err" => d.ph # "ok"

Causal == d.pos <= got + 2 /\ (d.ph = "ok" => got = Len(inp) /\ end = "eof")

Terminates == <>done
=============================================================================
