------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The IPLD side: values of the data model, the schema of the package's    *)
(* types, what a typed node and its representation look like when they are *)
(* read, and which git object a value stands for.                          *)
(*                                                                         *)
(* A value is a record [k, s, ks, vs]: its kind, the text of a scalar (for *)
(* a link: the bytes of the CID), the keys and the values.                 *)
(***************************************************************************)
EXTENDS GitCodec

Scalar(k, s) == [k |-> k, s |-> s, ks |-> <<>>, vs |-> <<>>]
VString(s)   == Scalar("string", s)
VBytes(s)    == Scalar("bytes", s)
VLink(c)     == Scalar("link", c)
VAbsent      == Scalar("absent", <<>>)
VNull        == Scalar("null", <<>>)
VMap(ks, vs) == [k |-> "map", s |-> <<>>, ks |-> ks, vs |-> vs]
VList(vs)    == [k |-> "list", s |-> <<>>, ks |-> <<>>, vs |-> vs]

KeyAt(v, key) == SelectInSeq(v.ks, LAMBDA x : x = key)
HasKey(v, key) == KeyAt(v, key) # 0
Get(v, key) == v.vs[KeyAt(v, key)]

\* Maps are equal whatever the order of their entries
RECURSIVE SameValue(_, _)
SameValue(a, b) ==
    /\ a.k = b.k /\ a.s = b.s /\ Len(a.vs) = Len(b.vs)
    /\ IF a.k = "map"
       THEN \A i \in 1..Len(a.ks) : HasKey(b, a.ks[i]) /\ SameValue(a.vs[i], Get(b, a.ks[i]))
       ELSE \A i \in 1..Len(a.vs) : SameValue(a.vs[i], b.vs[i])

---------------------------------------------------------------------------
(* CIDs.  The parts of a CID of version 1: codec, hash function and digest *)

\* Unsigned varints below 2^28, in their shortest form: [ok, v, next]
RECURSIVE VarAt(_, _, _)
VarAt(s, i, j) ==
    IF j > Len(s) \/ j - i > 3 THEN [ok |-> FALSE, v |-> 0, next |-> 0]
    ELSE IF s[j] >= 128
         THEN LET r == VarAt(s, i, j + 1)
              IN  [r EXCEPT !.v = (s[j] - 128) + 128 * r.v]
         ELSE IF j > i /\ s[j] = 0 THEN [ok |-> FALSE, v |-> 0, next |-> 0]
         ELSE [ok |-> TRUE, v |-> s[j], next |-> j + 1]
Varint(s, i) == VarAt(s, i, i)

NoCid == [ok |-> FALSE, version |-> 0, codec |-> 0, mh |-> 0, len |-> 0, digest |-> <<>>]

ParseCid(s) ==
    IF Len(s) = 34 /\ s[1] = 18 /\ s[2] = 32
    THEN [ok |-> TRUE, version |-> 0, codec |-> 112, mh |-> 18, len |-> 32, digest |-> Drop(s, 2)]
    ELSE LET a == Varint(s, 1)
             b == IF a.ok THEN Varint(s, a.next) ELSE a
             c == IF b.ok THEN Varint(s, b.next) ELSE b
             e == IF c.ok THEN Varint(s, c.next) ELSE c
         IN  IF e.ok /\ a.v = 1 /\ e.next + e.v = Len(s) + 1
             THEN [ok |-> TRUE, version |-> 1, codec |-> b.v, mh |-> c.v, len |-> e.v, digest |-> From(s, e.next)]
             ELSE NoCid

GitCodecCode == 120
Sha1Code     == 17
GitCid(h) == <<1, GitCodecCode, Sha1Code, HashLen>> \o h

\* A link that can stand in a git object: the digest is a git hash
NamesGit(c) == LET p == ParseCid(c) IN p.ok /\ p.mh = Sha1Code /\ p.len = HashLen
\* ... and one that this codec makes
IsGitCid(c) == Len(c) = HashLen + 4 /\ SubSeq(c, 1, 4) = <<1, GitCodecCode, Sha1Code, HashLen>>
Digest(c) == ParseCid(c).digest

---------------------------------------------------------------------------
(* The types                                                               *)

Field(n, ty, opt) == [n |-> n, ty |-> ty, opt |-> opt]

Fields(ty) ==
    CASE ty = "PersonInfo" -> << Field(L_DateK, "String", FALSE), Field(L_TimezoneK, "String", FALSE),
                                 Field(L_EmailK, "String", FALSE), Field(L_NameK, "String", FALSE) >>
      [] ty = "Tag"        -> << Field(L_ObjectW, "Link", FALSE), Field(L_TypeW, "String", FALSE),
                                 Field(L_Tag, "String", FALSE), Field(L_TaggerW, "PersonInfo", FALSE),
                                 Field(L_MessageK, "String", FALSE) >>
      [] ty = "Commit"     -> << Field(L_Tree, "Tree_Link", FALSE), Field(L_ParentsK, "Commit_Link_List", FALSE),
                                 Field(L_MessageK, "String", FALSE), Field(L_AuthorW, "PersonInfo", TRUE),
                                 Field(L_CommitterW, "PersonInfo", TRUE), Field(L_EncodingW, "String", TRUE),
                                 Field(L_SignatureK, "GpgSig", TRUE), Field(L_MergetagW, "Tag_List", FALSE),
                                 Field(L_OtherK, "String_List", FALSE) >>
      [] ty = "TreeEntry"  -> << Field(L_ModeK, "String", FALSE), Field(L_HashK, "Link", FALSE) >>

Structs == {"PersonInfo", "Tag", "Commit", "TreeEntry"}
Lists   == {"String_List", "Tag_List", "Commit_Link_List"}
Types   == Structs \cup Lists \cup {"String", "GpgSig", "Link", "Commit_Link", "Tree_Link", "Blob", "Tree"}
Objects == {"Blob", "Tree", "Commit", "Tag"}

Elem(ty) == CASE ty = "String_List" -> "String" [] ty = "Tag_List" -> "Tag"
              [] ty = "Commit_Link_List" -> "Commit_Link" [] ty = "Tree" -> "TreeEntry"

KindOf(ty) == CASE ty \in Structs \cup {"Tree"} -> "map"
                [] ty \in Lists -> "list"
                [] ty \in {"String", "GpgSig"} -> "string"
                [] ty \in {"Link", "Commit_Link", "Tree_Link"} -> "link"
                [] ty = "Blob" -> "bytes"

FieldAt(ty, key) == SelectInSeq(Fields(ty), LAMBDA f : f.n = key)
IsField(ty, key) == FieldAt(ty, key) # 0
FieldType(ty, key) == Fields(ty)[FieldAt(ty, key)].ty

Distinct(ks) == \A i, j \in 1..Len(ks) : ks[i] = ks[j] => i = j

\* v can be assembled as a value of the type
RECURSIVE Conforms(_, _)
Conforms(ty, v) ==
    /\ v.k = KindOf(ty)
    /\ CASE ty \in Structs ->
              /\ Distinct(v.ks)
              /\ \A i \in 1..Len(v.ks) : IsField(ty, v.ks[i]) /\ Conforms(FieldType(ty, v.ks[i]), v.vs[i])
              /\ \A i \in 1..Len(Fields(ty)) : Fields(ty)[i].opt \/ HasKey(v, Fields(ty)[i].n)
         [] ty = "Tree" -> Distinct(v.ks) /\ \A i \in 1..Len(v.vs) : Conforms(Elem(ty), v.vs[i])
         [] ty \in Lists -> \A i \in 1..Len(v.vs) : Conforms(Elem(ty), v.vs[i])
         [] OTHER -> TRUE

\* How a value of the type is read: with its fields in the schema's order; at
\* the type level optional fields that are not there are there as Absent
RECURSIVE Shown(_, _, _)
Shown(ty, v, lvl) ==
    CASE ty \in Structs ->
           LET here(f) == HasKey(v, f.n)
               fs == IF lvl = "type" THEN Fields(ty) ELSE SelectSeq(Fields(ty), here)
           IN  VMap([i \in 1..Len(fs) |-> fs[i].n],
                    [i \in 1..Len(fs) |-> IF here(fs[i]) THEN Shown(fs[i].ty, Get(v, fs[i].n), lvl)
                                          ELSE VAbsent])
      [] ty = "Tree" -> VMap(v.ks, [i \in 1..Len(v.vs) |-> Shown("TreeEntry", v.vs[i], lvl)])
      [] ty \in Lists -> VList([i \in 1..Len(v.vs) |-> Shown(Elem(ty), v.vs[i], lvl)])
      [] OTHER -> v

---------------------------------------------------------------------------
(* Values and git objects                                                  *)

PersonOf(v) == [name |-> Get(v, L_NameK).s, email |-> Get(v, L_EmailK).s,
                date |-> Get(v, L_DateK).s, tz |-> Get(v, L_TimezoneK).s]
OptText(v, key) == IF HasKey(v, key) THEN <<Get(v, key).s>> ELSE <<>>
OptPerson(v, key) == IF HasKey(v, key) THEN <<PersonOf(Get(v, key))>> ELSE <<>>
Texts(v) == [i \in 1..Len(v.vs) |-> v.vs[i].s]
Digests(v) == [i \in 1..Len(v.vs) |-> Digest(v.vs[i].s)]
TagOf(v) == [t |-> "tag", object |-> Digest(Get(v, L_ObjectW).s), type |-> Get(v, L_TypeW).s,
             tag |-> Get(v, L_Tag).s, tagger |-> PersonOf(Get(v, L_TaggerW)), message |-> Get(v, L_MessageK).s]

\* The object of a value whose links all name git objects
ObjOf(ty, v) ==
    CASE ty = "Blob" -> [t |-> "blob", bytes |-> v.s]
      [] ty = "Tree" -> [t |-> "tree", entries |-> [i \in 1..Len(v.ks) |->
                            [name |-> v.ks[i], mode |-> Get(v.vs[i], L_ModeK).s, hash |-> Digest(Get(v.vs[i], L_HashK).s)]]]
      [] ty = "Tag" -> TagOf(v)
      [] ty = "Commit" ->
           [t |-> "commit", tree |-> Digest(Get(v, L_Tree).s), parents |-> Digests(Get(v, L_ParentsK)),
            message |-> Get(v, L_MessageK).s, author |-> OptPerson(v, L_AuthorW), committer |-> OptPerson(v, L_CommitterW),
            encoding |-> OptText(v, L_EncodingW), signature |-> OptText(v, L_SignatureK),
            mergetag |-> [i \in 1..Len(Get(v, L_MergetagW).vs) |-> TagOf(Get(v, L_MergetagW).vs[i])],
            other |-> Texts(Get(v, L_OtherK))]

\* All links in a value
RECURSIVE Links(_)
Links(v) == IF v.k = "link" THEN {v.s} ELSE UNION {Links(v.vs[i]) : i \in 1..Len(v.vs)}

\* ... and back: the value a git object is decoded to
PersonVal(p) == VMap(<<L_DateK, L_TimezoneK, L_EmailK, L_NameK>>,
                     <<VString(p.date), VString(p.tz), VString(p.email), VString(p.name)>>)
TagVal(t) == VMap(<<L_ObjectW, L_TypeW, L_Tag, L_TaggerW, L_MessageK>>,
                  <<VLink(GitCid(t.object)), VString(t.type), VString(t.tag), PersonVal(t.tagger), VString(t.message)>>)
Strings(ss) == VList([i \in 1..Len(ss) |-> VString(ss[i])])
ValOf(o) ==
    CASE o.t = "blob" -> VBytes(o.bytes)
      [] o.t = "tree" -> VMap([i \in 1..Len(o.entries) |-> o.entries[i].name],
                              [i \in 1..Len(o.entries) |->
                                 VMap(<<L_ModeK, L_HashK>>, <<VString(o.entries[i].mode), VLink(GitCid(o.entries[i].hash))>>)])
      [] o.t = "tag" -> TagVal(o)
      [] o.t = "commit" ->
           LET opt(key, x) == IF x = <<>> THEN <<>> ELSE <<[key |-> key, v |-> x[1]]>>
               txt(x) == IF x = <<>> THEN x ELSE <<VString(x[1])>>
               per(x) == IF x = <<>> THEN x ELSE <<PersonVal(x[1])>>
               es == <<[key |-> L_Tree, v |-> VLink(GitCid(o.tree))],
                       [key |-> L_ParentsK, v |-> VList([i \in 1..Len(o.parents) |-> VLink(GitCid(o.parents[i]))])],
                       [key |-> L_MessageK, v |-> VString(o.message)]>>
                     \o opt(L_AuthorW, per(o.author)) \o opt(L_CommitterW, per(o.committer))
                     \o opt(L_EncodingW, txt(o.encoding)) \o opt(L_SignatureK, txt(o.signature))
                     \o <<[key |-> L_MergetagW, v |-> VList([i \in 1..Len(o.mergetag) |-> TagVal(o.mergetag[i])])],
                          [key |-> L_OtherK, v |-> Strings(o.other)]>>
           IN  VMap([i \in 1..Len(es) |-> es[i].key], [i \in 1..Len(es) |-> es[i].v])

TypeOf(o) == CASE o.t = "blob" -> "Blob" [] o.t = "tree" -> "Tree" [] o.t = "commit" -> "Commit" [] o.t = "tag" -> "Tag"

---------------------------------------------------------------------------
(* What git allows in an object: such objects survive encoding and decoding *)

No(b, s) == Find(b, s, 1) = 0
OneLine(s) == No(LF, s)

\* An identity as git writes it: the words of the name and email can be told
\* from the brackets, and the date and zone are single words
PersonOK(p) == LET l == PersonString(p)
                   r == ParsePerson(<<97, SP>> \o l)
               IN  OneLine(l) /\ r.ok /\ r.p = p

EndsLF(s) == s = <<>> \/ s[Len(s)] = LF
\* Every line of a text is indented, and it ends with a line feed
AllIndented(s) == EndsLF(s) /\ (s # <<>> => s[1] = SP)
                  /\ \A i \in 1..(Len(s) - 1) : s[i] = LF => s[i + 1] = SP

MergetagOK(m) == /\ OneLine(m.type) /\ OneLine(m.tag) /\ AllIndented(m.message)
                 /\ (m.tagger = NoPerson \/ PersonOK(m.tagger))

\* A line of a signature that would end it: also with a carriage return
SigLines(s) == LET RECURSIVE ls(_)
                   ls(i) == IF i > Len(s) THEN <<>>
                            ELSE LET j == Find(LF, s, i) IN <<SubSeq(s, i, j - 1)>> \o ls(j + 1)
               IN  ls(1)
SigOK(s) == /\ AllIndented(s) /\ s # <<>>
            /\ LET ls == SigLines(s)
               IN  /\ TrimCR(ls[1]) = <<SP>> \/ HasPrefix(ls[1], L_SpVersion) \/ HasPrefix(ls[1], L_SpComment)
                   /\ \A i \in 2..Len(ls) : TrimCR(ls[i]) # L_SigEnd

\* A further header: its line is not read as one of the known headers
OtherOK(s) == /\ s # <<>> /\ OneLine(s)
              /\ \A p \in {L_TreeSp, L_ParentSp, L_AuthorSp, L_CommitterSp, L_EncodingSp, L_MergetagObj} : ~HasPrefix(s, p)
              /\ TrimCR(s) # L_SigBegin

GitAllows(o) ==
    CASE o.t = "blob" -> LET r == Run(o.bytes, "eof") IN r.ph = "ok" /\ r.obj.t = "blob"
      [] o.t = "tree" -> \A i \in 1..Len(o.entries) : No(SP, o.entries[i].mode) /\ No(NUL, o.entries[i].name)
      [] o.t = "tag" -> OneLine(o.type) /\ OneLine(o.tag) /\ (o.tagger = NoPerson \/ PersonOK(o.tagger))
      [] o.t = "commit" ->
           /\ \A i \in 1..Len(o.author) : PersonOK(o.author[i])
           /\ \A i \in 1..Len(o.committer) : PersonOK(o.committer[i])
           /\ \A i \in 1..Len(o.encoding) : OneLine(o.encoding[i])
           /\ \A i \in 1..Len(o.mergetag) : MergetagOK(o.mergetag[i])
           /\ \A i \in 1..Len(o.signature) : SigOK(o.signature[i])
           /\ \A i \in 1..Len(o.other) : OtherOK(o.other[i])
           \* A further header that continues a mergetag's message is read as part of it
           /\ (o.other # <<>> /\ o.mergetag # <<>> /\ o.signature = <<>> => o.other[1][1] # SP)
=============================================================================
