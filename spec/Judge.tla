-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* What the specification allows the implementation to answer.             *)
(*                                                                         *)
(* An input falls into one of these classes:                               *)
(*   W  well-formed: the specification decodes it, and encoding the result *)
(*      gives the input back.  The answer has to be exactly that node, and *)
(*      its encoding exactly the input.                                    *)
(*   R  malformed: no node, an error.                                      *)
(*   K  decoded, but to a node that does not encode to the input: a known  *)
(*      limitation of the format's data model (see known-findings.jsonl).  *)
(*      The answer may be that very node with that very encoding, or an    *)
(*      error, or a node that does encode to the input; nothing else.      *)
(*   G  rejected for a reason that is a choice rather than a necessity: an *)
(*      error, or a node that encodes to the input.                        *)
(*   F  the reader failed before the object was complete: an error which   *)
(*      carries the failure.                                               *)
(*   E  the reader failed after the last byte of the object: this error,   *)
(*      or the node.                                                       *)
(***************************************************************************)
EXTENDS GitCodec

Choice == {"sigfirst", "mergetag"}

\* The class of an input, with what the specification makes of it
Assess(inp, cut) ==
    LET r == Run(inp, cut)
        e == Enc(r.obj)
    IN  IF r.ph = "ok"
        THEN IF r.dev = {} /\ e # inp THEN [c |-> "BUG", why |-> {r.obj.t}, obj |-> r.obj, enc |-> e]
             ELSE IF e = inp THEN [c |-> "W", why |-> {r.obj.t}, obj |-> r.obj, enc |-> inp]
                        ELSE [c |-> "K", why |-> r.dev, obj |-> r.obj, enc |-> e]
        ELSE IF r.why = "io"
        THEN LET w == Run(inp, "eof")
             IN  IF w.ph = "ok" THEN [c |-> "E", why |-> {"io"}, obj |-> w.obj, enc |-> Enc(w.obj)]
                 ELSE [c |-> "F", why |-> {"io"}, obj |-> EmptyBlob, enc |-> <<>>]
        ELSE [c |-> IF r.why \in Choice THEN "G" ELSE "R", why |-> {r.why},
              obj |-> EmptyBlob, enc |-> <<>>]

\* The encodings reported are all this one ("same" stands for the input)
EncIs(inp, o, e) ==
    \A i \in 1..Len(o.encs) :
        \/ o.encs[i].v = "same" /\ e = inp
        \/ o.encs[i].v = "ok" /\ o.encs[i].enc = e

NodeIs(o, n) == /\ Len(o.nodes) = 1
                /\ o.nodes[1].t = n.t
                /\ o.nodes[1] = n

\* A node of some kind, read the same in every way, that encodes to the input
Faithful(inp, o) == /\ o.v = "ok"
                    /\ Len(o.nodes) = 1
                    /\ o.nodes[1].t \notin {"bad", "panic"}
                    /\ Len(o.encs) = 1
                    /\ o.encs[1].v = "same"

Rejected(o) == o.v = "rej"

Exactly(inp, a, o) == o.v = "ok" /\ NodeIs(o, a.obj) /\ Len(o.encs) >= 1 /\ EncIs(inp, o, a.enc)

Allowed(inp, a, o) ==
    CASE a.c = "W" -> Exactly(inp, a, o)
      [] a.c = "R" -> Rejected(o)
      [] a.c = "K" -> Rejected(o) \/ Exactly(inp, a, o) \/ Faithful(inp, o)
      [] a.c = "G" -> Rejected(o) \/ Faithful(inp, o)
      [] a.c = "F" -> Rejected(o) /\ o.io
      [] a.c = "E" -> (Rejected(o) /\ o.io) \/ Exactly(inp, a, o)

\* What all properties have in common: an answer, and one answer
Total(o) == /\ o.v \in {"ok", "rej"}
            /\ \A i \in 1..Len(o.encs) : o.encs[i].v # "panic"
            /\ \A i \in 1..Len(o.nodes) : o.nodes[i].t # "panic"
=============================================================================
