------------------------------ MODULE Decoder ------------------------------
(***************************************************************************)
(* The decoder as a behaviour: one action for each thing the implementation*)
(* reads.  The state of the machine is d, its input inp.                   *)
(***************************************************************************)
EXTENDS GitCodec

VARIABLES inp, cut, d

Step(ph) == d.ph = ph /\ d' = DecStep(inp, cut, d) /\ UNCHANGED <<inp, cut>>

DTypeWord        == Step("type")
DSize            == Step("size")
DBlobContent     == Step("blob")
DTreeEntry       == Step("tree")
DCommitHeader    == Step("commit")
DSignatureFirst  == Step("sigfirst")
DSignatureLine   == Step("sig")
DMergetagHeader  == Step("mergetag")
DMergetagMessage == Step("mergetagmsg")
DMessage         == Step("message")
DTagHeader       == Step("tag")
DEnd             == Step("end")

DecodeNext ==
    \/ DTypeWord \/ DSize \/ DBlobContent \/ DTreeEntry \/ DCommitHeader
    \/ DSignatureFirst \/ DSignatureLine \/ DMergetagHeader \/ DMergetagMessage
    \/ DMessage \/ DTagHeader \/ DEnd

---------------------------------------------------------------------------
(* The decoder terminates: each step reads something, or moves on to a     *)
(* phase from which the same position has not been looked at yet.          *)
PhaseOrder(ph) == CASE ph = "type" -> 0 [] ph = "size" -> 1
                    [] ph \in {"blob", "tree", "sigfirst", "sig", "mergetag", "mergetagmsg", "message"} -> 2
                    [] ph \in {"commit", "tag"} -> 3
                    [] ph = "end" -> 4 [] ph \in {"ok", "rej"} -> 5

Advances == \/ d'.pos > d.pos
            \/ d'.pos = d.pos /\ PhaseOrder(d'.ph) > PhaseOrder(d.ph)
            \/ d'.ph = "rej"

\* It never looks beyond the input, and never gives a part of its input a
\* second time: what it holds is bounded by what it has read.
Held(x) == CASE x.t = "blob" -> Len(x.bytes)
             [] x.t = "tree" -> Len(Concat([i \in 1..Len(x.entries) |-> EncEntry(x.entries[i])]))
             [] OTHER        -> Len(x.message)

InBounds == /\ d.pos <= Len(inp) + 2
            /\ Held(d.obj) <= Len(inp) + 32

\* At the end everything has been read
AllRead == d.ph = "ok" => d.pos >= Len(inp) + 1 /\ d.lim = Len(inp)
=============================================================================
