------------------------------ MODULE Building ------------------------------
(***************************************************************************)
(* All ways to drive a builder, up to what the values are: from every      *)
(* state that can be reached, every command.  A command that fails or is   *)
(* out of place is followed by what finishes the value all the same, so    *)
(* that an assembler that has lost or kept something is found out.         *)
(***************************************************************************)
EXTENDS Assembler, TLC, Json

CONSTANTS Roots,      \* types
          Keys,       \* function: the keys tried in a map of a type
          MaxEntries, \* per map or list, as far as not required
          Shallow,    \* parts are assigned, not built
          Strange         \* values that are tried everywhere

VARIABLES s,    \* the builder
          log,  \* the commands so far
          exp   \* and what they may answer
vars == <<s, log, exp>>
\* The same state reached by other ways is not explored again
View == s

Values(ty) == {Sample(ty)} \cup {v \in Strange : v.k # KindOf(ty) \/ Composite(ty) \/ v.k = "string"}

Nodes(ty) == {[Cmd0 EXCEPT !.op = "node", !.ty = ty, !.form = f, !.val = Sample(ty)] : f \in {"type", "repr"}}
             \cup {[Cmd0 EXCEPT !.op = "node", !.form = "any", !.val = v] : v \in {Sample(ty)} \cup {v \in Strange : v.k \in {"null", "map", "int", "list"} /\ Distinct(v.ks)}}
             \cup {[Cmd0 EXCEPT !.op = "node", !.form = "absent"]}

\* Commands that are tried in a state
Moves(st) ==
    IF st.stack = <<>> THEN {Op("build")}
    ELSE LET fr == Top(st)
             room == IF fr.f = "map" THEN Len(fr.ks) < MaxEntries ELSE Len(fr.vs) < MaxEntries
         IN  {Op("build")} \cup
             CASE fr.f = "val" /\ Shallow /\ Len(st.stack) > 1 -> {OpVal("assign", Sample(fr.ty))}
               [] fr.f = "val" -> {OpVal("assign", v) : v \in Values(fr.ty)} \cup Nodes(fr.ty)
                                  \cup {[Op("begmap") EXCEPT !.i = h] : h \in {-1, 2}} \cup {Op("beglist")}
               [] fr.f = "map" -> (IF fr.key = <<>> /\ ~room THEN {} ELSE {OpKey("entry", k) : k \in Keys[fr.ty]} \cup {Op("key")})
                                  \cup {OpKey("entry", fr.ks[i]) : i \in 1..Len(fr.ks)}
                                  \cup {Op("value"), Op("finish")}
               [] fr.f = "key" -> {OpKey("keystr", k) : k \in Keys[fr.ty] \cup {Top(Pop(st)).ks[i] : i \in 1..Len(Top(Pop(st)).ks)}}
                                  \cup {[OpKey("keynode", k) EXCEPT !.form = f] : f \in {"any", "type"}, k \in Keys[fr.ty]}
                                  \cup {OpVal("keybad", v) : v \in {w \in Strange : w.k \in {"int", "map", "null"}}}
               [] fr.f = "list" -> (IF room THEN {Op("value")} ELSE {}) \cup {Op("finish")}

Tail0(ty, st) == (IF Stuck(st) \/ st.st # "go" THEN <<>> ELSE Finishing(st) \o <<Op("build")>>)
                 \o <<Op("reset"), OpVal("assign", Sample(ty)), Op("build"), Op("recheck")>>

Answer(a) == [may |-> a.may, t |-> a.t]
RECURSIVE Answers(_, _)
Answers(st, cs) ==
    IF cs = <<>> THEN <<>>
    ELSE LET a == Step(st, cs[1])
         IN  <<Answer(a)>> \o Answers(IF "ok" \in a.may THEN a.ok ELSE a.err, Tail(cs))

Init == \E ty \in Roots : s = A0(ty) /\ log = <<>> /\ exp = <<>>

Next == \E c \in Moves(s) :
          LET a == Step(s, c)
              t == IF a.may = {"ok"} THEN a.ok ELSE a.err
          IN  /\ s' = t
              /\ log' = Append(log, c)
              /\ exp' = Append(exp, Answer(a))
              /\ LET more == Tail0(s.ty, t)
                 IN  PrintT(<<"V", ToJson([ty |-> s.ty, cmds |-> log' \o more, exp |-> exp' \o Answers(t, more)])>>)

\* A spoiled builder is not driven further
Bound == s.st = "go"

Spec == Init /\ [][Next]_vars

\* What a finished builder holds is a value of its type; and what has been
\* begun can be finished
Sound == (s.st = "go" /\ s.stack = <<>>) => Conforms(s.ty, s.v)
RECURSIVE Ends(_, _)
Ends(st, cs) == IF cs = <<>> THEN st.stack = <<>> /\ Conforms(st.ty, st.v)
                ELSE Step(st, cs[1]).may = {"ok"} /\ Ends(Step(st, cs[1]).ok, SubSeq(cs, 2, Len(cs)))
Usable == (s.st = "go" /\ ~Stuck(s)) => Ends(s, Finishing(s))
\* A refused command leaves everything as it was, unless it spoils
Refusals == [][\A c \in Moves(s) : "ok" \notin Step(s, c).may => Step(s, c).err \in {s, Spoil(s), Open(s)}]_vars
=============================================================================
