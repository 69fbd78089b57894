----------------------------- MODULE Assembler -----------------------------
(***************************************************************************)
(* A builder of one of the package's types, driven call by call: a stack   *)
(* of what is being assembled.                                             *)
(*   val   a value of the type is wanted                                   *)
(*   map   entries are being added; key: the key a value is wanted for     *)
(*   key   a key is wanted (for the map below)                             *)
(*   list  items are being added                                           *)
(* An empty stack: the value is finished.                                  *)
(***************************************************************************)
EXTENDS Schema

Level(f, ty, opt) == [f |-> f, ty |-> ty, opt |-> opt, ks |-> <<>>, vs |-> <<>>, key |-> <<>>]

\* st: "go"; "spoiled": a composite value was refused, and only a new start
\* is sure to help; "open": not judged any more until then
A0(ty) == [ty |-> ty, st |-> "go", stack |-> <<Level("val", ty, FALSE)>>, v |-> VAbsent]

Top(s) == s.stack[Len(s.stack)]
Rest(s) == SubSeq(s.stack, 1, Len(s.stack) - 1)
SetTop(s, fr) == [s EXCEPT !.stack[Len(s.stack)] = fr]
Push(s, fr) == [s EXCEPT !.stack = Append(@, fr)]
Pop(s) == [s EXCEPT !.stack = Rest(s)]

\* The value on top is finished: it goes where it is wanted
Give(s, v) ==
    LET r == Rest(s)
    IN  IF r = <<>> THEN [s EXCEPT !.stack = r, !.v = v]
        ELSE [s EXCEPT !.stack = [r EXCEPT ![Len(r)].vs = Append(@, v), ![Len(r)].key = <<>>]]

MapTypes == Structs \cup {"Tree"}
ChildType(fr, k) == IF fr.ty = "Tree" THEN "TreeEntry" ELSE FieldType(fr.ty, k)
ChildOpt(fr, k) == fr.ty \in Structs /\ Fields(fr.ty)[FieldAt(fr.ty, k)].opt
Taken(fr, k) == \E i \in 1..Len(fr.ks) : fr.ks[i] = k
KeyOK(fr, k) == ~Taken(fr, k) /\ (fr.ty \in Structs => IsField(fr.ty, k))
ValueOf(fr) == IF fr.f = "map" THEN VMap(fr.ks, fr.vs) ELSE VList(fr.vs)
Complete(fr) == fr.ty \in Structs => \A i \in 1..Len(Fields(fr.ty)) : Fields(fr.ty)[i].opt \/ Taken(fr, Fields(fr.ty)[i].n)

\* The generated assemblers cannot take these from a node that is not of the
\* type itself (known finding)
RECURSIVE Hard(_, _, _)
Hard(ty, opt, v) ==
    \/ ty = "Tree"
    \/ ty = "PersonInfo" /\ opt
    \/ ty = "Commit" /\ v.k = "map" /\ \E i \in 1..Len(v.ks) : v.ks[i] \in {L_AuthorW, L_CommitterW}

\* What a command may answer, and the states after success and after an
\* error.  may \subseteq {"ok", "err", "panic", "skip"}; t: what it shows
Ans(may, ok, err, t) == [may |-> may, ok |-> ok, err |-> err, t |-> t]
Only(r, s) == Ans({r}, s, s, <<>>)
Spoil(s) == [s EXCEPT !.st = "spoiled"]
Open(s)  == [s EXCEPT !.st = "open"]
Misuse(s) == Ans({"err", "panic"}, s, Spoil(s), <<>>)
Skip(s) == Only("skip", s)

Composite(ty) == KindOf(ty) \in {"map", "list"}

\* The key is accepted, or the command fails and nothing happened
Keyed(s, fr, k, next) ==
    IF KeyOK(fr, k) THEN Only("ok", next) ELSE Only("err", s)

Prime(fr, k) == [fr EXCEPT !.ks = Append(@, k), !.key = <<k>>]

Step(s, c) ==
    LET e == s.stack = <<>>
        fr == IF e THEN Level("none", s.ty, FALSE) ELSE Top(s)
    IN
    CASE c.op = "reset" -> Only("ok", A0(s.ty))
      [] c.op = "recheck" -> Only("ok", s)
      [] c.op = "build" ->
           IF s.st # "go" THEN Ans({"ok", "err", "panic"}, s, s, <<>>)
           ELSE IF e THEN Ans({"ok"}, s, s, <<Shown(s.ty, s.v, "type"), Shown(s.ty, s.v, "repr")>>)
           ELSE Ans({"err", "panic"}, s, s, <<>>)
      [] s.st # "go" -> Ans({"ok", "err", "panic", "skip"}, s, s, <<>>)
      [] c.op = "assign" ->
           IF fr.f # "val" THEN Skip(s)
           ELSE IF Conforms(fr.ty, c.val) THEN Only("ok", Give(s, c.val))
           ELSE Ans({"err"}, s, IF Composite(fr.ty) /\ c.val.k = KindOf(fr.ty) THEN Spoil(s) ELSE s, <<>>)
      [] c.op = "node" ->
           IF fr.f # "val" THEN Skip(s)
           ELSE LET v == IF c.form = "absent" THEN VAbsent ELSE c.val
                    native == c.form = "type" /\ c.ty = fr.ty
                    kind == v.k = KindOf(fr.ty)
                    hard == ~native /\ kind /\ Hard(fr.ty, fr.opt, v)
                IN  IF hard THEN Ans({"ok", "err", "panic"}, Open(s), Open(s), <<>>)
                    ELSE IF Conforms(fr.ty, v) THEN Only("ok", Give(s, v))
                    ELSE Ans({"err"}, s, IF Composite(fr.ty) /\ kind THEN Spoil(s) ELSE s, <<>>)
      [] c.op = "begmap" ->
           IF fr.f # "val" THEN Skip(s)
           ELSE IF fr.ty \in MapTypes THEN Only("ok", SetTop(s, [fr EXCEPT !.f = "map"]))
           ELSE Only("err", s)
      [] c.op = "beglist" ->
           IF fr.f # "val" THEN Skip(s)
           ELSE IF fr.ty \in Lists THEN Only("ok", SetTop(s, [fr EXCEPT !.f = "list"]))
           ELSE Only("err", s)
      [] c.op = "entry" ->
           IF fr.f # "map" THEN Skip(s)
           ELSE IF fr.key # <<>> THEN Misuse(s)
           ELSE Keyed(s, fr, c.key, Push(SetTop(s, Prime(fr, c.key)), Level("val", IF KeyOK(fr, c.key) THEN ChildType(fr, c.key) ELSE "", KeyOK(fr, c.key) /\ ChildOpt(fr, c.key))))
      [] c.op = "key" ->
           IF fr.f # "map" THEN Skip(s)
           ELSE IF fr.key # <<>> THEN Misuse(s)
           ELSE Only("ok", Push(s, Level("key", fr.ty, FALSE)))
      [] c.op \in {"keystr", "keynode"} ->
           IF fr.f # "key" THEN Skip(s)
           ELSE LET below == Top(Pop(s))
                IN  IF below.ty = "Tree" /\ Taken(below, c.key)
                    THEN Ans({"ok", "err"}, Open(s), Open(s), <<>>)    \* known finding
                    ELSE Keyed(s, below, c.key, SetTop(Pop(s), Prime(below, c.key)))
      [] c.op = "keybad" -> IF fr.f # "key" THEN Skip(s) ELSE Only("err", s)
      [] c.op = "value" ->
           CASE fr.f = "map" -> IF fr.key = <<>> THEN Misuse(s)
                                ELSE Only("ok", Push(s, Level("val", ChildType(fr, fr.key[1]), ChildOpt(fr, fr.key[1]))))
             [] fr.f = "list" -> Only("ok", Push(s, Level("val", Elem(fr.ty), FALSE)))
             [] OTHER -> Skip(s)
      [] c.op = "finish" ->
           CASE fr.f = "map" -> IF fr.key # <<>> THEN Misuse(s)
                                ELSE IF Complete(fr) THEN Only("ok", Give(s, ValueOf(fr)))
                                ELSE Only("err", s)
             [] fr.f = "list" -> Only("ok", Give(s, ValueOf(fr)))
             [] OTHER -> Skip(s)

---------------------------------------------------------------------------
\* How what has been begun can be finished: a sequence of commands

Cmd0 == [op |-> "", i |-> 0, n |-> 0, ty |-> "", form |-> "", key |-> <<>>, val |-> VAbsent]
Op(o) == [Cmd0 EXCEPT !.op = o]
OpKey(o, k) == [Cmd0 EXCEPT !.op = o, !.key = k]
OpVal(o, v) == [Cmd0 EXCEPT !.op = o, !.val = v]

\* A value of each type
RECURSIVE Sample(_)
Sample(ty) ==
    CASE ty \in {"String", "GpgSig"} -> VString(<<115>>)
      [] ty \in {"Link", "Commit_Link", "Tree_Link"} -> VLink(GitCid([i \in 1..HashLen |-> i]))
      [] ty = "Blob" -> VBytes(<<0, 255>>)
      [] ty = "Tree" -> VMap(<< <<122>> >>, << Sample("TreeEntry") >>)
      [] ty \in Lists -> VList(<< Sample(Elem(ty)) >>)
      [] OTHER -> LET fs == Fields(ty)
                  IN  VMap([i \in 1..Len(fs) |-> fs[i].n], [i \in 1..Len(fs) |-> Sample(fs[i].ty)])

RECURSIVE Finishing(_)
Finishing(s) ==
    IF s.stack = <<>> THEN <<>>
    ELSE LET fr == Top(s)
             missing == SelectSeq(IF fr.ty \in Structs THEN Fields(fr.ty) ELSE <<>>,
                                  LAMBDA f : ~f.opt /\ ~Taken(IF fr.f = "key" THEN Top(Pop(s)) ELSE fr, f.n))
             free == CHOOSE k \in {<<122, i>> : i \in 48..57} : ~Taken(Top(Pop(s)), k)
             c == CASE fr.f = "val" -> OpVal("assign", Sample(fr.ty))
                    [] fr.f = "key" -> OpKey("keystr", IF fr.ty = "Tree" THEN free
                                                       ELSE IF missing # <<>> THEN missing[1].n
                                                       ELSE LET b == Top(Pop(s)) IN
                                                            SelectSeq(Fields(fr.ty), LAMBDA f : ~Taken(b, f.n))[1].n)
                    [] fr.f = "map" /\ fr.key # <<>> -> Op("value")
                    [] fr.f = "map" /\ missing # <<>> -> OpKey("entry", missing[1].n)
                    [] OTHER -> Op("finish")
         IN  <<c>> \o Finishing(Step(s, c).ok)

\* A key is wanted but none is left: this cannot be finished
Stuck(s) == s.stack # <<>> /\ Top(s).f = "key" /\ Top(s).ty \in Structs
            /\ \A i \in 1..Len(Fields(Top(s).ty)) : Taken(Top(Pop(s)), Fields(Top(s).ty)[i].n)
=============================================================================
