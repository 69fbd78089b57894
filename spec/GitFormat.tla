----------------------------- MODULE GitFormat -----------------------------
(***************************************************************************)
(* Git's own object format, written down independently of the codec: what  *)
(* git writes for an object given by its parts, and which node the IPLD    *)
(* schema has for it.                                                      *)
(*                                                                         *)
(* In git a commit or tag is a list of headers, each a key and a value     *)
(* that may have several lines, followed by an empty line and the message. *)
(* A line feed in a value is written as line feed and space.  A mergetag   *)
(* is a whole tag object as the value of a header, line by line, and a     *)
(* signature a text of several lines.                                      *)
(***************************************************************************)
EXTENDS Bytes, Lit

\* Values of several lines
Fold(v) == Concat([i \in 1..Len(v) |-> IF v[i] = LF THEN <<LF, SP>> ELSE <<v[i]>>])

GitHeader(key, v) == key \o <<SP>> \o Fold(v) \o <<LF>>

GitObject(word, body) == word \o <<SP>> \o Dec(Len(body)) \o <<NUL>> \o body

\* Identities: name, email, date, zone
GitPerson(p) == p.name \o <<SP, LT>> \o p.email \o <<GT, SP>> \o p.date \o <<SP>> \o p.tz

\* A tag: object, type, tag, an optional tagger, an optional message
GitTagBody(t) ==
       GitHeader(L_ObjectW, Hex(t.object))
    \o GitHeader(L_TypeW, t.type)
    \o GitHeader(L_Tag, t.tag)
    \o (IF t.tagger # <<>> THEN GitHeader(L_TaggerW, GitPerson(t.tagger[1])) ELSE <<>>)
    \o (IF t.message # <<>> THEN <<LF>> \o t.message[1] ELSE <<>>)

\* The lines of a text, without their line feeds; a last line that is not
\* terminated counts, an empty one does not
RECURSIVE LinesFrom(_, _)
LinesFrom(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET j == Find(LF, s, i)
         IN  IF j = 0 THEN <<From(s, i)>>
             ELSE <<SubSeq(s, i, j - 1)>> \o LinesFrom(s, j + 1)

Lines(s) == LinesFrom(s, 1)

Indented(ls) == Concat([i \in 1..Len(ls) |-> <<SP>> \o ls[i] \o <<LF>>])

\* A commit: tree, parents, optional author, committer and encoding, then
\* mergetags, an optional signature and further headers
GitCommitBody(c) ==
       GitHeader(L_Tree, Hex(c.tree))
    \o Concat([i \in 1..Len(c.parents) |-> GitHeader(L_ParentW, Hex(c.parents[i]))])
    \o (IF c.author # <<>> THEN GitHeader(L_AuthorW, GitPerson(c.author[1])) ELSE <<>>)
    \o (IF c.committer # <<>> THEN GitHeader(L_CommitterW, GitPerson(c.committer[1])) ELSE <<>>)
    \o (IF c.encoding # <<>> THEN GitHeader(L_EncodingW, c.encoding[1]) ELSE <<>>)
    \o Concat([i \in 1..Len(c.mergetags) |-> L_MergetagW \o Indented(Lines(GitTagBody(c.mergetags[i])))])
    \o (IF c.sig # <<>> THEN GitHeader(L_GpgsigW, c.sig[1]) ELSE <<>>)
    \o Concat([i \in 1..Len(c.extra) |-> GitHeader(c.extra[i].key, c.extra[i].val)])
    \o <<LF>>
    \o c.message

GitTreeBody(t) ==
    Concat([i \in 1..Len(t.entries) |->
              t.entries[i].mode \o <<SP>> \o t.entries[i].name \o <<NUL>> \o t.entries[i].hash])

Ser(o) == CASE o.t = "blob"   -> GitObject(L_Blob, o.content)
            [] o.t = "tree"   -> GitObject(L_Tree, GitTreeBody(o))
            [] o.t = "tag"    -> GitObject(L_Tag, GitTagBody(o))
            [] o.t = "commit" -> GitObject(L_Commit, GitCommitBody(o))

---------------------------------------------------------------------------
(* The schema's view.  The schema keeps the lines of a mergetag's message  *)
(* and of a signature as they stand in the commit, indented by a space,    *)
(* and further headers line by line.                                       *)

None == [name |-> <<>>, email |-> <<>>, date |-> <<>>, tz |-> <<>>]

TagNode(t) == [t |-> "tag", object |-> t.object, type |-> t.type, tag |-> t.tag,
               tagger  |-> IF t.tagger = <<>> THEN None ELSE t.tagger[1],
               message |-> IF t.message = <<>> THEN <<>> ELSE t.message[1]]

\* The message of a mergetag is followed by the header's own line feed
MergetagNode(t) == [TagNode(t) EXCEPT !.message =
                      IF t.message = <<>> THEN <<>> ELSE Indented(Lines(t.message[1]))]

\* A signature without its first and last line
SigNode(s) == LET ls == Lines(s) IN Indented(SubSeq(ls, 2, Len(ls) - 1))

OtherNode(h) == LET ls == Lines(GitHeader(h.key, h.val)) IN ls

NodeOf(o) ==
    CASE o.t = "blob" -> [t |-> "blob", bytes |-> Ser(o)]
      [] o.t = "tree" -> o
      [] o.t = "tag"  -> TagNode(o)
      [] o.t = "commit" ->
           [t |-> "commit", tree |-> o.tree, parents |-> o.parents, message |-> o.message,
            author |-> o.author, committer |-> o.committer, encoding |-> o.encoding,
            signature |-> IF o.sig = <<>> THEN <<>> ELSE <<SigNode(o.sig[1])>>,
            mergetag |-> [i \in 1..Len(o.mergetags) |-> MergetagNode(o.mergetags[i])],
            other |-> Concat([i \in 1..Len(o.extra) |-> OtherNode(o.extra[i])])]
=============================================================================
