------------------------------ MODULE GitCodec ------------------------------
(***************************************************************************)
(* The git-raw codec: how bytes become an IPLD node and a node bytes.      *)
(*                                                                         *)
(* Decoding is a machine that reads its input line by line (trees: entry   *)
(* by entry), as the implementation does: a state of the machine is a      *)
(* record                                                                  *)
(*     ph   the phase: what is read next, or "ok" / "rej" at the end       *)
(*     pos  the position of the next byte                                  *)
(*     lim  the position of the object's last byte, by the size declared   *)
(*     obj  the object decoded so far                                      *)
(*     aux  the mergetag or signature being read                           *)
(*     rank where in git's order of headers the decoder is                 *)
(*     dev  the ways in which the node decoded so far cannot tell its      *)
(*          object from others: see Deviations                             *)
(*     why  on rejection, the reason                                       *)
(* and DecStep is its next-state function.  Decoder.tla makes it a TLA+    *)
(* behaviour with one named action per phase; Run is the whole run.        *)
(*                                                                         *)
(* What the reader does when the bytes run out is the parameter cut: "eof" *)
(* if it reports the end of the input, "err" if it fails.                  *)
(*                                                                         *)
(* Nodes are records with a field t for the type.  Optional fields hold    *)
(* <<>> (absent) or a sequence of length one.  Links are represented by    *)
(* the 20 bytes of the hash; a hash that was not read yet is <<>>.         *)
(***************************************************************************)
EXTENDS Bytes, Lit

HashLen == 20

NoPerson == [name |-> <<>>, email |-> <<>>, date |-> <<>>, tz |-> <<>>]

EmptyBlob   == [t |-> "blob", bytes |-> <<>>]
EmptyTree   == [t |-> "tree", entries |-> <<>>]
EmptyTag    == [t |-> "tag", object |-> <<>>, type |-> <<>>, tag |-> <<>>,
                tagger |-> NoPerson, message |-> <<>>]
EmptyCommit == [t |-> "commit", tree |-> <<>>, parents |-> <<>>, message |-> <<>>,
                author |-> <<>>, committer |-> <<>>, encoding |-> <<>>,
                signature |-> <<>>, mergetag |-> <<>>, other |-> <<>>]

---------------------------------------------------------------------------
(* Person infos: "author NAME <EMAIL> DATE TZ".  The line is cut at its    *)
(* spaces; the name ends at the first word that starts with '<', the email *)
(* at the first word from there on that ends with '>'.                     *)

UnLT(w) == IF w # <<>> /\ w[1] = LT THEN Tail(w) ELSE w
EndsGT(w) == w # <<>> /\ w[Len(w)] = GT
UnGT(w) == SubSeq(w, 1, Len(w) - 1)

ParsePerson(line) ==
    LET ws == Split(line)
        n  == Len(ws)
        k  == SelectInSubSeq(ws, 2, n, LAMBDA w : w # <<>> /\ w[1] = LT)
        e  == IF k = 0 THEN 0 ELSE SelectInSubSeq(ws, k, n, LAMBDA w : EndsGT(UnLT(w)))
    IN  IF n < 3 \/ k = 0 \/ e = 0
        THEN [ok |-> FALSE, p |-> NoPerson]
        ELSE [ok |-> TRUE,
              p |-> [name  |-> Join(SubSeq(ws, 2, k - 1)),
                     email |-> UnGT(Join([i \in 1..(e - k + 1) |-> UnLT(ws[k + i - 1])])),
                     date  |-> IF e + 1 <= n THEN ws[e + 1] ELSE <<>>,
                     tz    |-> IF e + 2 <= n THEN ws[e + 2] ELSE <<>>]]

PersonString(p) ==
    p.name \o <<SP, LT>> \o p.email \o <<GT>>
           \o (IF p.date # <<>> THEN <<SP>> \o p.date ELSE <<>>)
           \o (IF p.tz   # <<>> THEN <<SP>> \o p.tz   ELSE <<>>)

---------------------------------------------------------------------------
(* The decoder                                                             *)

Start == [ph |-> "type", pos |-> 1, lim |-> 0, obj |-> EmptyBlob, aux |-> <<>>,
          rank |-> 0, dev |-> {}, why |-> ""]

(* The ways in which what is decoded may differ from what is encoded.  Each *)
(* is a limitation of the data model or a leniency of the decoder, and is  *)
(* named here so that nothing else can go unnoticed: Lossless says that    *)
(* without a deviation encoding gives the input back.                      *)
Deviations ==
    {"order",       \* headers not in git's order, or a single one twice
     "person",      \* an identity with other spaces or words than git writes
     "hexcase",     \* upper case hexadecimal
     "tagheader",   \* an unknown header of a tag: dropped
     "mtheader",    \* an unknown header of a mergetag: dropped
     "missing",     \* a tag or mergetag lacks its type or tag header: invented
     "notagger",    \* a tagger line of an empty identity: dropped
     "emptymsg",    \* a tag with an empty line but no message: the line is dropped
     "nobody",      \* a commit without the empty line: invented
     "mtnobody",    \* a mergetag without the line between headers and message
     "cr",          \* carriage return at a marker line: dropped
     "nolf"}        \* the last header line does not end with a line feed

Dev(d, cond, name) == IF cond THEN [d EXCEPT !.dev = @ \cup {name}] ELSE d

\* A header of rank r is read; single ones may occur once
Ranked(d, r, single) ==
    Dev([d EXCEPT !.rank = r], r < d.rank \/ (single /\ r = d.rank), "order")

Lower(line) == \A i \in 1..Len(line) : ~(line[i] \in 65..70)

Final(d) == d.ph \in {"ok", "rej"}

Rej(d, w) == [d EXCEPT !.ph = "rej", !.why = w]

\* The bytes ran out where more were needed
Out(d, cut, w) == Rej(d, IF cut = "err" THEN "io" ELSE w)

AtEnd(inp, d) == d.pos > Len(inp)

\* The reader fails before the line at d.pos is complete
Starved(inp, cut, d) == cut = "err" /\ Find(LF, inp, d.pos) = 0

\* Position of the line feed that ends the line at d.pos
Eol(inp, d) == LET j == Find(LF, inp, d.pos) IN IF j = 0 THEN Len(inp) + 1 ELSE j

Line(inp, d) == SubSeq(inp, d.pos, Eol(inp, d) - 1)

Consume(inp, d) == Dev([d EXCEPT !.pos = Eol(inp, d) + 1], Eol(inp, d) > Len(inp), "nolf")

\* "blob 12\0": the word before the space
ReadType(inp, cut, d) ==
    LET j == Find(SP, inp, 1)
        w == SubSeq(inp, 1, j - 1)
        Go(o) == [d EXCEPT !.ph = "size", !.pos = j + 1, !.obj = o]
    IN  IF j = 0 THEN Out(d, cut, "type")
        ELSE CASE w = L_Blob   -> Go(EmptyBlob)
               [] w = L_Tree   -> Go(EmptyTree)
               [] w = L_Commit -> Go(EmptyCommit)
               [] w = L_Tag    -> Go(EmptyTag)
               [] OTHER        -> Rej(d, "type")

\* ... and the number up to the NUL, in canonical decimal.
ReadSize(inp, cut, d) ==
    LET j == Find(NUL, inp, d.pos)
        a == Atoi(SubSeq(inp, d.pos, j - 1))
    IN  IF j = 0 THEN Out(d, cut, "header")
        ELSE IF ~a.ok THEN Rej(d, "size")
        ELSE IF a.neg THEN Rej(d, "negative")
        ELSE IF ~a.canon THEN Rej(d, "size")
        ELSE [d EXCEPT !.ph = d.obj.t, !.pos = j + 1, !.lim = j + a.v]

\* The part of the input that belongs to the object, and what happens where it
\* runs out.
Body(inp, d) == IF d.lim < Len(inp) THEN SubSeq(inp, 1, d.lim) ELSE inp
BodyCut(inp, cut, d) == IF d.lim <= Len(inp) THEN "eof" ELSE cut

ReadBlob(inp, cut, d) ==
    IF Len(inp) < d.lim THEN Out(d, cut, "short")
    ELSE [d EXCEPT !.ph = "end", !.pos = d.lim + 1,
                   !.obj.bytes = L_BlobSp \o Dec(d.lim - d.pos + 1) \o <<NUL>>
                                   \o SubSeq(inp, d.pos, d.lim)]

\* The object has to end where its header says
Finish(inp, cut, d) ==
    IF Len(inp) < d.lim THEN Rej(d, "short")
    ELSE IF Len(inp) > d.lim THEN Rej(d, "trailing")
    ELSE IF cut = "err" THEN Rej(d, "io")
    ELSE IF d.obj.t = "commit" /\ d.obj.tree = <<>> THEN Rej(d, "notree")
    ELSE IF d.obj.t = "tag" /\ d.obj.object = <<>> THEN Rej(d, "noobject")
    ELSE [d EXCEPT !.ph = "ok"]

\* One entry of a tree: MODE SP NAME NUL HASH
ReadEntry(inp, cut, d) ==
    LET i == Find(SP, inp, d.pos)
        j == Find(NUL, inp, i + 1)
        name == SubSeq(inp, i + 1, j - 1)
    IN  IF AtEnd(inp, d)
        THEN IF cut = "err" THEN Rej(d, "io") ELSE [d EXCEPT !.ph = "end"]
        ELSE IF i = 0 \/ j = 0 \/ j + HashLen > Len(inp) THEN Out(d, cut, "entry")
        ELSE IF \E k \in 1..Len(d.obj.entries) : d.obj.entries[k].name = name
        THEN Rej(d, "repeated")
        ELSE [d EXCEPT !.pos = j + HashLen + 1,
                       !.obj.entries = Append(@, [name |-> name,
                                                  mode |-> SubSeq(inp, d.pos, i - 1),
                                                  hash |-> SubSeq(inp, j + 1, j + HashLen)])]

\* A hexadecimal reference after the prefix p of the line
RefOf(line, p) == LET h == Drop(line, Len(p))
                  IN  IF IsHex(h) /\ Len(h) = 2 * HashLen
                      THEN [ok |-> TRUE, h |-> UnHex(h), low |-> Lower(h)]
                      ELSE [ok |-> FALSE, h |-> <<>>, low |-> TRUE]

\* A person line that is not what its person is written as
Odd(line, p, per) == Drop(line, Len(p)) # PersonString(per.p)

\* One header line of a commit, or its end
ReadCommitLine(inp, cut, d) ==
    IF AtEnd(inp, d)
    THEN IF cut = "err" THEN Rej(d, "io")
         ELSE Dev([d EXCEPT !.ph = "end"], d.rank < 9, "nobody")
    ELSE IF Starved(inp, cut, d) THEN Rej(d, "io")
    ELSE LET line == Line(inp, d)
             d1   == Consume(inp, d)
             D(r, single) == Ranked(d1, r, single)
             Ref(p) == RefOf(line, p)
             DR(r, single, p) == Dev(D(r, single), ~Ref(p).low, "hexcase")
             Per  == ParsePerson(line)
             DP(r, p) == Dev(D(r, TRUE), Odd(line, p, Per), "person")
         IN CASE HasPrefix(line, L_TreeSp) ->
                   IF Ref(L_TreeSp).ok
                   THEN [DR(1, TRUE, L_TreeSp) EXCEPT !.obj.tree = Ref(L_TreeSp).h]
                   ELSE Rej(d, "ref")
              [] HasPrefix(line, L_ParentSp) ->
                   IF Ref(L_ParentSp).ok
                   THEN [DR(2, FALSE, L_ParentSp) EXCEPT !.obj.parents = Append(@, Ref(L_ParentSp).h)]
                   ELSE Rej(d, "ref")
              [] HasPrefix(line, L_AuthorSp) ->
                   IF Per.ok THEN [DP(3, L_AuthorSp) EXCEPT !.obj.author = <<Per.p>>]
                   ELSE Rej(d, "person")
              [] HasPrefix(line, L_CommitterSp) ->
                   IF Per.ok THEN [DP(4, L_CommitterSp) EXCEPT !.obj.committer = <<Per.p>>]
                   ELSE Rej(d, "person")
              [] HasPrefix(line, L_EncodingSp) ->
                   [D(5, TRUE) EXCEPT !.obj.encoding = <<Drop(line, Len(L_EncodingSp))>>]
              [] HasPrefix(line, L_MergetagObj) ->
                   IF Ref(L_MergetagObj).ok
                   THEN [DR(6, FALSE, L_MergetagObj) EXCEPT
                           !.ph = "mergetag",
                           !.aux = [tag |-> [EmptyTag EXCEPT !.object = Ref(L_MergetagObj).h],
                                    rank |-> 1]]
                   ELSE Rej(d, "ref")
              [] TrimCR(line) = L_SigBegin ->
                   Dev([D(7, TRUE) EXCEPT !.ph = "sigfirst", !.aux = <<>>], line # L_SigBegin, "cr")
              [] line = <<>> -> [d1 EXCEPT !.ph = "message", !.rank = 9]
              [] OTHER -> [D(8, FALSE) EXCEPT !.obj.other = Append(@, line)]

\* The first line of a signature after its BEGIN line
ReadSigFirst(inp, cut, d) ==
    IF AtEnd(inp, d) \/ Starved(inp, cut, d) THEN Out(d, cut, "signature")
    ELSE LET line == Line(inp, d)
         IN  IF \/ TrimCR(line) = <<SP>>
                \/ HasPrefix(line, L_SpVersion)
                \/ HasPrefix(line, L_SpComment)
             THEN [Consume(inp, d) EXCEPT !.ph = "sig", !.aux = line \o <<LF>>]
             ELSE Rej(d, "sigfirst")

ReadSigLine(inp, cut, d) ==
    IF AtEnd(inp, d) \/ Starved(inp, cut, d) THEN Out(d, cut, "signature")
    ELSE LET line == Line(inp, d)
         IN  IF TrimCR(line) = L_SigEnd
             THEN Dev([Consume(inp, d) EXCEPT !.ph = "commit", !.obj.signature = <<d.aux>>, !.aux = <<>>],
                      line # L_SigEnd, "cr")
             ELSE [Consume(inp, d) EXCEPT !.aux = d.aux \o line \o <<LF>>]

EndMergetag(d) == [d EXCEPT !.ph = "commit", !.aux = <<>>,
                            !.obj.mergetag = Append(@, d.aux.tag)]

\* The headers of a mergetag have been read; was it all of them?
MtComplete(d) == Dev(d, d.aux.rank \notin {3, 4}, "missing")

MtRanked(d, r) == Dev([d EXCEPT !.aux.rank = r], r <= d.aux.rank,  "order")

\* One header line of a mergetag; the line that ends it is the commit's
ReadMergetagLine(inp, cut, d) ==
    IF AtEnd(inp, d)
    THEN IF cut = "err" THEN Rej(d, "io") ELSE EndMergetag(Dev(d, TRUE, "mtnobody"))
    ELSE IF Starved(inp, cut, d) THEN Rej(d, "io")
    ELSE LET line == Line(inp, d)
             d1   == Consume(inp, d)
             Per  == ParsePerson(Tail(line))
         IN CASE ~HasPrefix(line, <<SP>>) -> EndMergetag(Dev(d, TRUE, "mtnobody"))
              [] HasPrefix(line, L_SpType) ->
                   [MtRanked(d1, 2) EXCEPT !.aux.tag.type = Drop(line, Len(L_SpType))]
              [] HasPrefix(line, L_SpTag) ->
                   [Dev(MtRanked(d1, 3), d.aux.rank < 2, "missing")
                      EXCEPT !.aux.tag.tag = Drop(line, Len(L_SpTag))]
              [] HasPrefix(line, L_SpTagger) ->
                   IF Per.ok
                   THEN [Dev(Dev(Dev(MtRanked(d1, 4), d.aux.rank < 3, "missing"),
                                 Odd(line, L_SpTagger, Per), "person"),
                             Per.p = NoPerson, "notagger")
                           EXCEPT !.aux.tag.tagger = Per.p]
                   ELSE Rej(d, "person")
              [] TrimCR(line) = <<SP>> ->
                   Dev([MtComplete(d1) EXCEPT !.ph = "mergetagmsg"], line # <<SP>>, "cr")
              [] OTHER -> Dev(d1, TRUE, "mtheader")

ReadMergetagMessage(inp, cut, d) ==
    IF AtEnd(inp, d) \/ Starved(inp, cut, d) THEN Out(d, cut, "mergetag")
    ELSE LET line == Line(inp, d)
         IN  IF HasPrefix(line, <<SP>>)
             THEN [Consume(inp, d) EXCEPT !.aux.tag.message = @ \o line \o <<LF>>]
             ELSE EndMergetag(d)

\* The rest of a commit or tag is its message
ReadMessage(inp, cut, d) ==
    IF cut = "err" THEN Rej(d, "io")
    ELSE [d EXCEPT !.ph = d.obj.t, !.pos = Len(inp) + 1, !.obj.message = From(inp, d.pos)]

ReadTagLine(inp, cut, d) ==
    IF AtEnd(inp, d)
    THEN IF cut = "err" THEN Rej(d, "io")
         ELSE Dev(Dev([d EXCEPT !.ph = "end"], d.rank < 3, "missing"),
                  d.rank = 9 /\ d.obj.message = <<>>, "emptymsg")
    ELSE IF Starved(inp, cut, d) THEN Rej(d, "io")
    ELSE LET line == Line(inp, d)
             d1   == Consume(inp, d)
             D(r) == Ranked(d1, r, TRUE)
             Ref  == RefOf(line, L_ObjectSp)
             Per  == ParsePerson(line)
         IN CASE HasPrefix(line, L_ObjectSp) ->
                   IF Ref.ok
                   THEN [Dev(D(1), ~Ref.low, "hexcase") EXCEPT !.obj.object = Ref.h]
                   ELSE Rej(d, "ref")
              [] HasPrefix(line, L_TagSp) ->
                   [Dev(D(3), d.rank < 2, "missing") EXCEPT !.obj.tag = Drop(line, Len(L_TagSp))]
              [] HasPrefix(line, L_TaggerSp) ->
                   IF Per.ok
                   THEN [Dev(Dev(Dev(D(4), d.rank < 3, "missing"),
                                 Odd(line, L_TaggerSp, Per), "person"),
                             Per.p = NoPerson, "notagger")
                           EXCEPT !.obj.tagger = Per.p]
                   ELSE Rej(d, "person")
              [] HasPrefix(line, L_TypeSp) ->
                   [D(2) EXCEPT !.obj.type = Drop(line, Len(L_TypeSp))]
              [] line = <<>> ->
                   [Dev(d1, d.rank < 3, "missing") EXCEPT !.ph = "message", !.rank = 9]
              [] OTHER -> Dev(d1, TRUE, "tagheader")

BodyStep(inp, cut, d) ==
    CASE d.ph = "blob"        -> ReadBlob(inp, cut, d)
      [] d.ph = "tree"        -> ReadEntry(inp, cut, d)
      [] d.ph = "commit"      -> ReadCommitLine(inp, cut, d)
      [] d.ph = "sigfirst"    -> ReadSigFirst(inp, cut, d)
      [] d.ph = "sig"         -> ReadSigLine(inp, cut, d)
      [] d.ph = "mergetag"    -> ReadMergetagLine(inp, cut, d)
      [] d.ph = "mergetagmsg" -> ReadMergetagMessage(inp, cut, d)
      [] d.ph = "message"     -> ReadMessage(inp, cut, d)
      [] d.ph = "tag"         -> ReadTagLine(inp, cut, d)

DecStep(inp, cut, d) ==
    CASE d.ph = "type" -> ReadType(inp, cut, d)
      [] d.ph = "size" -> ReadSize(inp, cut, d)
      [] d.ph = "end"  -> Finish(inp, cut, d)
      [] OTHER         -> BodyStep(Body(inp, d), BodyCut(inp, cut, d), d)

\* More steps than any run has: lines, twice (a mergetag ends without reading
\* one), and entries.  A fold rather than a recursion, because TLC's lookups
\* take time proportional to the depth of a recursion.
StepBound(inp) == 2 * Len(SelectSeq(inp, LAMBDA b : b = LF)) + (Len(inp) \div (HashLen + 2)) + 12

Run(inp, cut) ==
    FoldLeft(LAMBDA d, i : IF Final(d) THEN d ELSE DecStep(inp, cut, d),
             Start, [i \in 1..StepBound(inp) |-> i])

---------------------------------------------------------------------------
(* The encoder                                                             *)

HexLine(p, h) == p \o Hex(h) \o <<LF>>
PersonLine(p, pi) == p \o PersonString(pi) \o <<LF>>

Frame(word, body) == word \o Dec(Len(body)) \o <<NUL>> \o body

EncEntry(e) == e.mode \o <<SP>> \o e.name \o <<NUL>> \o e.hash

EncTree(n) == Frame(L_TreeSp, Concat([i \in 1..Len(n.entries) |-> EncEntry(n.entries[i])]))

EncMergetag(m) ==
       HexLine(L_MergetagObj, m.object)
    \o L_SpType \o m.type \o <<LF>>
    \o L_SpTag \o m.tag \o <<LF>>
    \o (IF m.tagger # NoPerson THEN PersonLine(L_SpTagger, m.tagger) ELSE <<>>)
    \o <<SP, LF>>
    \o m.message

EncCommitBody(n) ==
       HexLine(L_TreeSp, n.tree)
    \o Concat([i \in 1..Len(n.parents) |-> HexLine(L_ParentSp, n.parents[i])])
    \o (IF n.author # <<>> THEN PersonLine(L_AuthorSp, n.author[1]) ELSE <<>>)
    \o (IF n.committer # <<>> THEN PersonLine(L_CommitterSp, n.committer[1]) ELSE <<>>)
    \o (IF n.encoding # <<>> THEN L_EncodingSp \o n.encoding[1] \o <<LF>> ELSE <<>>)
    \o Concat([i \in 1..Len(n.mergetag) |-> EncMergetag(n.mergetag[i])])
    \o (IF n.signature # <<>>
        THEN L_SigBegin \o <<LF>> \o n.signature[1] \o L_SigEnd \o <<LF>> ELSE <<>>)
    \o Concat([i \in 1..Len(n.other) |-> n.other[i] \o <<LF>>])
    \o <<LF>>
    \o n.message

EncTagBody(n) ==
       HexLine(L_ObjectSp, n.object)
    \o L_TypeSp \o n.type \o <<LF>>
    \o L_TagSp \o n.tag \o <<LF>>
    \o (IF n.tagger # NoPerson THEN PersonLine(L_TaggerSp, n.tagger) ELSE <<>>)
    \o (IF n.message # <<>> THEN <<LF>> \o n.message ELSE <<>>)

Enc(n) == CASE n.t = "blob"   -> n.bytes
            [] n.t = "tree"   -> EncTree(n)
            [] n.t = "commit" -> Frame(L_CommitSp, EncCommitBody(n))
            [] n.t = "tag"    -> Frame(L_TagSp, EncTagBody(n))

---------------------------------------------------------------------------
\* The central theorem of the specification: an accepted input is the encoding
\* of its node, unless it deviates in one of the named ways.
Lossless(inp, r) == r.ph = "ok" /\ r.dev = {} => Enc(r.obj) = inp

=============================================================================
