------------------------------ MODULE Session ------------------------------
(* All histories of a given length over an alphabet of commands *)
EXTENDS Sessions, TLC, Json

CONSTANTS Bufs,      \* the buffers' contents
          Alphabet,  \* commands
          Depth

VARIABLES s, log
vars == <<s, log>>

Init == s = S0(Bufs) /\ log = <<>>

\* Nothing is gained from scribbling over what nobody has read, or twice
Useful(c) == /\ Fits(s, c)
             /\ c.op = "scribble" => s.bufs[c.i + 1].ok /\ s.regs # <<>>
             /\ c.op = "refill" => ~s.bufs[c.i + 1].ok
             /\ c.op \in {"dec", "redec"} => s.bufs[c.i + 1].ok
             /\ c.op \in {"read", "enc"} => (log # <<>> /\ log[Len(log)].op \notin {"read", "refill"})

Next == /\ Len(log) < Depth
        /\ \E c \in Alphabet :
             /\ Useful(c)
             /\ Do(s, c).ok # "any"
             /\ s' = Do(s, c).s
             /\ log' = Append(log, c)
        /\ Len(log') = Depth => PrintT(<<"V", ToJson([bufs |-> Bufs, cmds |-> log'])>>)

Spec == Init /\ [][Next]_vars

\* Registers are never changed, only added
Immutable == [][/\ Len(s'.regs) >= Len(s.regs)
                /\ \A i \in 1..Len(s.regs) : s'.regs[i] = s.regs[i]]_vars
\* ... and hold values of their types
Typing == \A i \in 1..Len(s.regs) : Conforms(s.regs[i].ty, s.regs[i].v)
=============================================================================
