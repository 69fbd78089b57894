------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* A program that decodes, encodes, reads and assembles, with buffers,     *)
(* builders and nodes that it uses again.  Nodes are values here: nothing  *)
(* that happens to a buffer, a builder or another node reaches them, and   *)
(* that is the property.  An implementation that shares memory between     *)
(* them gives other answers in some of these histories.                    *)
(***************************************************************************)
EXTENDS Encoder

\* What is decoded from a buffer
Outcome(inp) == LET r == Run(inp, "eof")
                IN  IF r.ph = "ok" /\ r.dev = {} THEN [c |-> "W", ty |-> TypeOf(r.obj), v |-> ValOf(r.obj)]
                    ELSE IF r.ph = "rej" THEN [c |-> "R", ty |-> "", v |-> VAbsent]
                    ELSE [c |-> "K", ty |-> "", v |-> VAbsent]

\* A commit or tag with one field replaced
Graft(v, key, x) == [v EXCEPT !.vs = [i \in 1..Len(v.vs) |-> IF v.ks[i] = key THEN x ELSE v.vs[i]]]

\* A part of a value, by name or (in a list) by number: [ok, ty, v]
PartOf(ty, v, key, i) ==
    CASE ty \in Structs /\ IsField(ty, key) /\ HasKey(v, key) -> [ok |-> TRUE, ty |-> FieldType(ty, key), v |-> Get(v, key)]
      [] ty = "Tree" /\ HasKey(v, key) -> [ok |-> TRUE, ty |-> "TreeEntry", v |-> Get(v, key)]
      [] ty \in Lists /\ i < Len(v.vs) -> [ok |-> TRUE, ty |-> Elem(ty), v |-> v.vs[i + 1]]
      [] OTHER -> [ok |-> FALSE, ty |-> "", v |-> VAbsent]

\* A state: the buffers and whether they are intact, the registers, and the
\* type of the builder in use.
S0(bufs) == [bufs |-> [i \in 1..Len(bufs) |-> [inp |-> bufs[i], ok |-> TRUE]], regs |-> <<>>, nb |-> ""]

\* A register holds a value of a type, perhaps in a generic node
Add(s, ty, v, gen) == [s EXCEPT !.regs = Append(@, [ty |-> ty, v |-> v, gen |-> gen])]
Reg(s, c) == s.regs[c.i + 1]

\* The effect of a command: [s, ok, t]: the next state, whether it succeeds
\* ("any": not decided here), and what it answers
Reply(s, ok, t) == [s |-> s, ok |-> ok, t |-> t]
Value(ty, v) == <<[ty |-> ty, v |-> v]>>
PutG(s, ty, v, gen) == Reply(Add(s, ty, v, gen), "ok", Value(ty, v))
Put(s, ty, v) == PutG(s, ty, v, FALSE)

\* The generated assemblers cannot take an optional field's value from a
\* generic node (known finding of C14)
Hard(r) == r.gen /\ r.ty = "Commit"

Do(s, c) ==
    CASE c.op \in {"dec", "redec"} ->
           LET o == Outcome(s.bufs[c.i + 1].inp)
           IN  IF ~s.bufs[c.i + 1].ok \/ o.c = "K" THEN Reply(s, "any", <<>>)
               ELSE IF o.c = "R" \/ (c.op = "redec" /\ o.ty # s.nb) THEN Reply(s, "err", <<>>)
               ELSE PutG(s, o.ty, o.v, c.op = "dec" /\ c.form = "any")
      [] c.op = "scribble" -> Reply([s EXCEPT !.bufs[c.i + 1].ok = FALSE], "ok", <<>>)
      [] c.op = "refill" -> Reply([s EXCEPT !.bufs[c.i + 1].ok = TRUE], "ok", <<>>)
      [] c.op = "enc" ->
           LET x == IF Reg(s, c).gen THEN Generic(Reg(s, c).v) ELSE Typed(Reg(s, c).ty, Reg(s, c).v)
           IN  IF x.c = "W" THEN Reply(s, "ok", <<[ty |-> "Blob", v |-> VBytes(Enc(x.objs[1]))]>>)
               ELSE Reply(s, IF x.c = "R" THEN "err" ELSE "any", <<>>)
      [] c.op = "read" -> Reply(s, "ok", Value(Reg(s, c).ty, Reg(s, c).v))
      [] c.op = "part" -> LET p == PartOf(Reg(s, c).ty, Reg(s, c).v, c.key, c.n)
                          IN  IF p.ok THEN PutG(s, p.ty, p.v, Reg(s, c).gen) ELSE Reply(s, "any", <<>>)
      [] c.op \in {"build", "rebuild", "graft"} /\ Hard(Reg(s, c)) -> Reply(s, "any", <<>>)
      [] c.op = "build" -> Put([s EXCEPT !.nb = c.ty], c.ty, Reg(s, c).v)
      [] c.op = "rebuild" -> Put(s, s.nb, Reg(s, c).v)
      [] c.op = "make" -> Put(s, s.nb, c.val)
      [] c.op = "graft" -> Put(s, Reg(s, c).ty, Graft(Reg(s, c).v, c.key, c.val))

\* Commands that make sense in a state
Fits(s, c) ==
    CASE c.op \in {"enc", "read", "part"} -> c.i < Len(s.regs)
      [] c.op = "build" -> c.i < Len(s.regs) /\ Reg(s, c).ty = c.ty
      [] c.op = "rebuild" -> s.nb # "" /\ c.i < Len(s.regs) /\ Reg(s, c).ty = s.nb
      [] c.op = "make" -> s.nb = c.ty
      [] c.op = "redec" -> s.nb # ""
      [] c.op = "graft" -> c.i < Len(s.regs) /\ Reg(s, c).ty = c.ty /\ HasKey(Reg(s, c).v, c.key)
      [] OTHER -> TRUE
=============================================================================
