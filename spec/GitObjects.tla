----------------------------- MODULE GitObjects -----------------------------
(***************************************************************************)
(* Objects are built part by part, written down by git's rules (GitFormat),*)
(* perhaps damaged on the way, and decoded by the codec (Decoder).         *)
(*                                                                         *)
(* The invariants say that the codec is right for every object git writes: *)
(* it is accepted, its node is the one the schema has for it, and encoding *)
(* the node gives back every byte; and that no damage makes it lose        *)
(* anything except in the ways named in GitCodec.                          *)
(*                                                                         *)
(* Every behaviour that ends is printed as a test vector, which the        *)
(* harness replays into the implementation.                                *)
(***************************************************************************)
EXTENDS Decoder, GitFormat, TLC, Json

CONSTANTS Kinds,                   \* which objects are built
          Contents,                \* of blobs
          Hashes, Names, Modes, MaxEntries,
          Persons, MaxParents, OptAuthor, Encodings,
          Tags, MaxMergetags,      \* Tags: the tags for tag objects and mergetags
          Sigs, Extras, MaxExtras, Messages,
          Damages,                 \* subset of DamageKinds
          DamageBytes,             \* bytes put into the input
          RefLens,                 \* lengths given to references
          Deltas,                  \* by how much the header can be wrong
          Reframe                  \* whether the header's size follows the damage

VARIABLES obj,     \* the object, by its parts
          slot,    \* the part that comes next
          stage,   \* "build", "damage", "read", "done"
          dam      \* the damage done

vars == <<inp, cut, d, obj, slot, stage, dam>>

DamageKinds == {"none", "cut", "set", "insert", "delete", "dropline", "dupline", "swapline", "cutline", "stretch", "spoil", "claim"}

Nothing == [t |-> "none"]

Init == /\ obj = Nothing /\ slot = "kind" /\ stage = "build" /\ dam = "none"
        /\ inp = <<>> /\ cut = "eof" /\ d = Start

Building == stage = "build" /\ UNCHANGED <<inp, cut, d, stage, dam>>

\* --- building

NewBlob == /\ Building /\ slot = "kind" /\ "blob" \in Kinds
           /\ \E c \in Contents : obj' = [t |-> "blob", content |-> c]
           /\ slot' = "seal"

NewTree == /\ Building /\ slot = "kind" /\ "tree" \in Kinds
           /\ obj' = [t |-> "tree", entries |-> <<>>]
           /\ slot' = "entry"

AddEntry == /\ Building /\ slot = "entry" /\ Len(obj.entries) < MaxEntries
            /\ \E n \in Names, m \in Modes, h \in Hashes :
                 /\ \A i \in 1..Len(obj.entries) : obj.entries[i].name # n
                 /\ obj' = [obj EXCEPT !.entries = Append(@, [name |-> n, mode |-> m, hash |-> h])]
            /\ UNCHANGED slot

EndTree == /\ Building /\ slot = "entry" /\ slot' = "seal" /\ UNCHANGED obj

NewTag == /\ Building /\ slot = "kind" /\ "tag" \in Kinds
          /\ \E t \in Tags : obj' = t
          /\ slot' = "seal"

NewCommit == /\ Building /\ slot = "kind" /\ "commit" \in Kinds
             /\ \E h \in Hashes :
                  obj' = [t |-> "commit", tree |-> h, parents |-> <<>>, author |-> <<>>,
                          committer |-> <<>>, encoding |-> <<>>, mergetags |-> <<>>,
                          sig |-> <<>>, extra |-> <<>>, message |-> <<>>]
             /\ slot' = "parents"

AddParent == /\ Building /\ slot = "parents" /\ Len(obj.parents) < MaxParents
             /\ \E h \in Hashes : obj' = [obj EXCEPT !.parents = Append(@, h)]
             /\ UNCHANGED slot

SetAuthor == /\ Building /\ slot = "parents" /\ slot' = "committer"
             /\ \E p \in Persons : obj' = [obj EXCEPT !.author = <<p>>]

NoAuthor == /\ Building /\ slot = "parents" /\ OptAuthor /\ slot' = "committer" /\ UNCHANGED obj

SetCommitter == /\ Building /\ slot = "committer" /\ slot' = "encoding"
                /\ \E p \in Persons : obj' = [obj EXCEPT !.committer = <<p>>]

NoCommitter == /\ Building /\ slot = "committer" /\ OptAuthor /\ slot' = "encoding" /\ UNCHANGED obj

SetEncoding == /\ Building /\ slot = "encoding" /\ slot' = "mergetag"
               /\ \E e \in Encodings : obj' = [obj EXCEPT !.encoding = <<e>>]

NoEncoding == /\ Building /\ slot = "encoding" /\ slot' = "mergetag" /\ UNCHANGED obj

AddMergetag == /\ Building /\ slot = "mergetag" /\ Len(obj.mergetags) < MaxMergetags
               \* The codec cannot tell a tag without a message: see "mtnobody"
               /\ \E t \in {x \in Tags : x.message # <<>>} :
                    obj' = [obj EXCEPT !.mergetags = Append(@, t)]
               /\ UNCHANGED slot

SetSig == /\ Building /\ slot = "mergetag" /\ slot' = "extra"
          /\ \E s \in Sigs : obj' = [obj EXCEPT !.sig = <<s>>]

NoSig == /\ Building /\ slot = "mergetag" /\ slot' = "extra" /\ UNCHANGED obj

AddExtra == /\ Building /\ slot = "extra" /\ Len(obj.extra) < MaxExtras
            /\ \E e \in Extras : obj' = [obj EXCEPT !.extra = Append(@, e)]
            /\ UNCHANGED slot

SetMessage == /\ Building /\ slot = "extra" /\ slot' = "seal"
              /\ \E m \in Messages : obj' = [obj EXCEPT !.message = m]

\* --- the object is written

Seal == /\ stage = "build" /\ slot = "seal"
        /\ inp' = Ser(obj)
        /\ stage' = IF Damages = {"none"} THEN "read" ELSE "damage"
        /\ UNCHANGED <<cut, d, obj, slot, dam>>

\* --- and damaged

BodyStart(s) == Find(NUL, s, 1) + 1
Framed(s) == IF Reframe
             THEN LET b == From(s, BodyStart(s))
                  IN  SubSeq(s, 1, Find(SP, s, 1)) \o Dec(Len(b)) \o <<NUL>> \o b
             ELSE s

Damaged(kind, s) == /\ kind \in Damages
                    /\ inp' = s /\ dam' = kind /\ stage' = "read"
                    /\ UNCHANGED <<cut, d, obj, slot>>

\* Positions that can be damaged: with Reframe only those of the body
Low == IF Reframe THEN BodyStart(inp) ELSE 1

Intact == stage = "damage" /\ Damaged("none", inp)

Cut == /\ stage = "damage"
       /\ \E i \in (Low - 1)..(Len(inp) - 1) : Damaged("cut", Framed(SubSeq(inp, 1, i)))

SetByte == /\ stage = "damage"
           /\ \E i \in Low..Len(inp), b \in DamageBytes :
                b # inp[i] /\ Damaged("set", Framed([inp EXCEPT ![i] = b]))

InsertByte == /\ stage = "damage"
              /\ \E i \in Low..(Len(inp) + 1), b \in DamageBytes :
                   Damaged("insert", Framed(SubSeq(inp, 1, i - 1) \o <<b>> \o From(inp, i)))

DeleteByte == /\ stage = "damage"
              /\ \E i \in Low..Len(inp) :
                   Damaged("delete", Framed(SubSeq(inp, 1, i - 1) \o From(inp, i + 1)))

\* Line by line; the header counts as part of the first line and stays
BodyLines == LET b == From(inp, BodyStart(inp)) IN Lines(b)
OfLines(ls) == SubSeq(inp, 1, BodyStart(inp) - 1)
                 \o Concat([i \in 1..Len(ls) |-> ls[i] \o <<LF>>])

DropLine == /\ stage = "damage"
            /\ \E i \in 1..Len(BodyLines) :
                 Damaged("dropline", Framed(OfLines(SubSeq(BodyLines, 1, i - 1)
                                                      \o From(BodyLines, i + 1))))

DupLine == /\ stage = "damage"
           /\ \E i, j \in 1..Len(BodyLines) :
                Damaged("dupline", Framed(OfLines(SubSeq(BodyLines, 1, j - 1)
                                                    \o <<BodyLines[i]>> \o From(BodyLines, j))))

SwapLines == /\ stage = "damage"
             /\ \E i, j \in 1..Len(BodyLines) :
                  i < j /\ Damaged("swapline", Framed(OfLines(
                              [BodyLines EXCEPT ![i] = BodyLines[j], ![j] = BodyLines[i]])))

\* A line ends early: around each of its words, or by its last byte
CutLine == /\ stage = "damage"
           /\ \E i \in 1..Len(BodyLines) : \E k \in 0..(Len(BodyLines[i]) - 1) :
                LET l == BodyLines[i]
                IN  /\ k = Len(l) - 1 \/ l[k + 1] = SP \/ (k > 0 /\ l[k] = SP)
                    /\ Damaged("cutline", Framed(OfLines([BodyLines EXCEPT ![i] = SubSeq(l, 1, k)])))

\* The header states another size
Claim == /\ stage = "damage"
         /\ LET size == Len(inp) - BodyStart(inp) + 1
            IN  \E k \in Deltas : size + k >= 0 /\ k # 0 /\
                    Damaged("claim", SubSeq(inp, 1, Find(SP, inp, 1)) \o Dec(size + k) \o <<NUL>> \o From(inp, BodyStart(inp)))

\* References: forty digits in a row that become more or fewer, or not all digits
RefAt(s, i) == /\ i + 2 * HashLen - 1 <= Len(s)
               /\ \A j \in i..(i + 2 * HashLen - 1) : HexVal(s[j]) >= 0
               /\ i > 1 /\ s[i - 1] = SP

Stretch == /\ stage = "damage" /\ obj.t # "tree"
           /\ \E i \in BodyStart(inp)..Len(inp), n \in RefLens :
                /\ RefAt(inp, i)
                /\ Damaged("stretch", Framed(SubSeq(inp, 1, i - 1)
                        \o [j \in 1..n |-> inp[i + ((j - 1) % (2 * HashLen))]]
                        \o From(inp, i + 2 * HashLen)))

Spoil == /\ stage = "damage" /\ obj.t # "tree"
         /\ \E i \in BodyStart(inp)..Len(inp), k \in {0, 1, HashLen, 2 * HashLen - 2, 2 * HashLen - 1}, b \in DamageBytes :
              RefAt(inp, i) /\ Damaged("spoil", [inp EXCEPT ![i + k] = b])

\* --- and read

Read == stage = "read" /\ DecodeNext /\ UNCHANGED <<obj, slot, stage, dam>>

Vector == [k |-> "vec", src |-> dam, inp |-> inp, ph |-> d.ph, why |-> d.why, dev |-> d.dev,
           node |-> <<d.obj>>, same |-> d.ph = "ok" /\ Enc(d.obj) = inp]

Done == /\ stage = "read" /\ Final(d)
        /\ PrintT(<<"V", ToJson(Vector)>>)
        /\ stage' = "done"
        /\ UNCHANGED <<inp, cut, d, obj, slot, dam>>

Build == NewBlob \/ NewTree \/ AddEntry \/ EndTree \/ NewTag \/ NewCommit \/ AddParent
         \/ SetAuthor \/ NoAuthor \/ SetCommitter \/ NoCommitter \/ SetEncoding
         \/ NoEncoding \/ AddMergetag \/ SetSig \/ NoSig \/ AddExtra \/ SetMessage

Damage == Intact \/ Cut \/ SetByte \/ InsertByte \/ DeleteByte
          \/ DropLine \/ DupLine \/ SwapLines \/ CutLine \/ Stretch \/ Spoil \/ Claim

Next == Build \/ Seal \/ Damage \/ Read \/ Done

Spec == Init /\ [][Next]_vars /\ WF_vars(Seal \/ Read \/ Done)

---------------------------------------------------------------------------
(* Properties                                                              *)

\* An object as git writes it is accepted, and is what the schema says
Accepted == stage = "done" /\ dam = "none" => d.ph = "ok"
RightNode == stage = "done" /\ dam = "none" => d.obj = NodeOf(obj)
RoundTrip == stage = "done" /\ dam = "none" => Enc(d.obj) = inp

\* The same node comes from the composed run that the trace checks use
RunAgrees == stage = "done" => Run(inp, cut) = d

\* Nothing is lost without a name for it
NothingLost == stage = "done" => Lossless(inp, d)

\* What was cut off is noticed: a proper prefix of an object (with its old
\* header) is never accepted
CutNoticed == stage = "done" /\ dam = "cut" /\ ~Reframe => d.ph = "rej"

\* A wrong size is noticed
ClaimNoticed == stage = "done" /\ dam = "claim" => d.ph = "rej"

\* Different content, different node: with the header's size unchanged no
\* damage to a faithful object gives the same node without a deviation
Injective == stage = "done" /\ d.ph = "ok" /\ d.dev = {} /\ inp # Ser(obj) => d.obj # NodeOf(obj)

ReadsOn == [][stage = "read" /\ d' # d => Advances]_vars

Safe == stage = "read" => InBounds
ReadAll == stage = "done" => AllRead

Ends == (stage = "read") ~> (stage = "done")
=============================================================================
