------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Histories of a store: objects are stored one after the other, each      *)
(* referring to any of those before it; then everything is loaded and      *)
(* every path is followed.                                                 *)
(*                                                                         *)
(* Checked: what is loaded is what was stored (Faithful); equal objects    *)
(* have equal links and different ones different links (Addressed); and    *)
(* every link in an object leads to the object that was meant (Leads).     *)
(***************************************************************************)
EXTENDS Store, TLC, Json

CONSTANTS Templates,   \* values with links <<0, 0>>, <<0, 1>>: holes; as [ty, val]
          Puts         \* how many objects are stored

VARIABLES items, log, done
vars == <<items, log, done>>

Init == items = <<>> /\ log = <<>> /\ done = FALSE

\* The holes filled with objects a and b
RECURSIVE Fill(_, _)
Fill(v, f) == IF v.k = "link" /\ Len(v.s) = 2 THEN VLink(<<0, f[v.s[2] + 1]>>)
              ELSE [v EXCEPT !.vs = [i \in 1..Len(v.vs) |-> Fill(v.vs[i], f)]]
RECURSIVE Holes(_)
Holes(v) == IF v.k = "link" THEN IF Len(v.s) = 2 THEN v.s[2] + 1 ELSE 0
            ELSE LET S == {Holes(v.vs[i]) : i \in 1..Len(v.vs)} \cup {0} IN CHOOSE m \in S : \A x \in S : x <= m

Put == /\ ~done /\ Len(items) < Puts
       /\ \E t \in Templates :
            LET n == Holes(t.val)
            IN  /\ n > 0 => items # <<>>
                /\ \E f \in [1..n -> 0..(Len(items) - 1)] :
                     LET v == Fill(t.val, f)
                     IN  /\ log' = Append(log, [op |-> "put", ty |-> t.ty, form |-> t.form, val |-> v, i |-> 0])
                         /\ items' = Append(items, Item(t.ty, Resolve(v, Linked(items))))
       /\ UNCHANGED done

\* All paths out of a value of a type, through at most n links
Nat2Text(i) == IF i < 10 THEN <<48 + i>> ELSE <<48 + (i \div 10), 48 + (i % 10)>>
Segs(ty, v) == CASE ty \in Structs \cup {"Tree"} -> {v.ks[i] : i \in 1..Len(v.ks)}
                 [] ty \in Lists -> {Nat2Text(i - 1) : i \in 1..Len(v.vs)}
                 [] OTHER -> {}
RECURSIVE Paths(_, _, _, _)
Paths(its, ty, v, n) ==
    {<<>>} \cup UNION { LET d == Down(ty, v, s)
                            j == Lookup(its, d.v.s)
                        IN  IF d.v.k = "link" THEN {<<s>>} \cup (IF n = 0 \/ j = 0 THEN {} ELSE {<<s>> \o p : p \in Paths(its, its[j].ty, its[j].val, n - 1)})
                            ELSE {<<s>> \o p : p \in Paths(its, d.ty, d.v, n)} : s \in Segs(ty, v) }

SomePaths(i) == {p \in Paths(items, items[i].ty, items[i].val, 2) : Start0(items, i, p, FALSE).seen # <<>>}

Cmd(op, i, form, path) == [op |-> op, ty |-> items[i + 1].ty, form |-> form, i |-> i,
                           val |-> VMap(path, <<>>)]

Queries == [i \in 1..Len(items) |-> Cmd("get", i - 1, "any", <<>>)]
           \o <<Cmd("get", Len(items) - 1, "type", <<>>), Cmd("get", Len(items) - 1, "repr", <<>>)>>
           \o SetToSeq({Cmd("walk", Len(items) - 1, f, p) : f \in {"any", "typed"}, p \in SomePaths(Len(items))})
           \o SetToSeq({Cmd("walk", 0, "any", p) : p \in SomePaths(1)})
           \o <<Cmd("walk", Len(items) - 1, "any", <<<<120>>>>)>>

Done == /\ ~done /\ Len(items) = Puts
        /\ done' = TRUE
        /\ PrintT(<<"V", ToJson([cmds |-> log \o Queries])>>)
        /\ UNCHANGED <<items, log>>

Next == Put \/ Done
Spec == Init /\ [][Next]_vars

N == Len(items)
New == items[N]      \* the others were new once

Faithful == N > 0 => New.c = "W" /\ SameValue(New.put, New.val) /\ ObjOf(New.ty, New.val) = New.obj

Addressed == \A i \in 1..N : items[i].lnk = New.lnk <=> items[i].raw = New.raw

\* Links of a value are links of the store's objects, never its own
Leads == N > 0 => \A l \in Links(New.val) : \E i \in 1..(N - 1) : items[i].lnk = l
=============================================================================
