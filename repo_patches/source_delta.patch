From 706b76401e2347cb99d6e6103ce791c584540845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:17 +0000
Subject: [PATCH 01/16] fix: encode commits that lack an author or committer

Both fields are optional in the schema and DecodeCommit leaves them absent
when the header has no such line, but encodeCommit dereferenced them
unconditionally and panicked.
---
 commit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index 44e133e..da449ad 100644
--- a/commit.go
+++ b/commit.go
@@ -175,8 +175,12 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 	for _, p := range c.parents.x {
 		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
 	}
-	fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
-	fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	if c.author.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
+	}
+	if c.committer.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	}
 	if c.encoding.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
-- 
2.43.0


From 8ff8753552f2bb75d5e21a5e434bdd8e85ed37b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:43 +0000
Subject: [PATCH 02/16] fix: encode commits given as a representation or
 generic node

Encode accepts Commit.Repr and plain map nodes, but AssignNode panicked on
their author and committer: the generated assembler of an optional struct has
no storage until BeginMap is called, and AssignNode does not call it.
---
 commit.go | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/commit.go b/commit.go
index da449ad..853cd3a 100644
--- a/commit.go
+++ b/commit.go
@@ -162,9 +162,51 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	return out, nil
 }
 
+// assignCommit fills a commit builder from any node with the shape of a commit.
+// The generated AssignNode cannot fill an optional struct from a node that is
+// not already of that type, so the person infos are converted on the way.
+func assignCommit(nb ipld.NodeBuilder, n ipld.Node) error {
+	if c, ok := n.(Commit); ok {
+		return nb.AssignNode(c)
+	}
+
+	ma, err := nb.BeginMap(n.Length())
+	if err != nil {
+		return err
+	}
+	for itr := n.MapIterator(); !itr.Done(); {
+		k, v, err := itr.Next()
+		if err != nil {
+			return err
+		}
+		if v.IsAbsent() {
+			continue
+		}
+		key, err := k.AsString()
+		if err != nil {
+			return err
+		}
+		va, err := ma.AssembleEntry(key)
+		if err != nil {
+			return err
+		}
+		if key == "author" || key == "committer" {
+			pi := Type.PersonInfo__Repr.NewBuilder()
+			if err := pi.AssignNode(v); err != nil {
+				return err
+			}
+			v = pi.Build()
+		}
+		if err := va.AssignNode(v); err != nil {
+			return err
+		}
+	}
+	return ma.Finish()
+}
+
 func encodeCommit(n ipld.Node, w io.Writer) error {
 	ci := Type.Commit__Repr.NewBuilder()
-	if err := ci.AssignNode(n); err != nil {
+	if err := assignCommit(ci, n); err != nil {
 		return fmt.Errorf("not a Commit: %T %w", n, err)
 	}
 	c := ci.Build().(Commit)
-- 
2.43.0


From 549f4581ff916f46c148411eec8447f9f2ce6aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:45 +0000
Subject: [PATCH 03/16] fix: recognise a generic tag node whatever its first
 key is

The kind of a generic map node was guessed from its first key, so a tag that
starts with its message, as dag-json orders it, was taken for a commit and
refused.
---
 marshal.go | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/marshal.go b/marshal.go
index d2610e5..e5aff88 100644
--- a/marshal.go
+++ b/marshal.go
@@ -26,25 +26,12 @@ func Encode(n ipld.Node, w io.Writer) error {
 	case ipld.Kind_List:
 		return encodeTree(n, w)
 	case ipld.Kind_Map:
-		k, _, err := n.MapIterator().Next()
-		if err != nil {
-			return err
-		}
-		repKey, err := k.AsString()
-		if err != nil {
-			return err
-		}
-		switch repKey {
-		case
-			"object",
-			"type",
-			"tag",
-			"tagger",
-			"text":
+		// Only a tag has an object, and it can be anywhere in the map: codecs
+		// such as dag-json put the message first.
+		if _, err := n.LookupByString("object"); err == nil {
 			return encodeTag(n, w)
-		default:
-			return encodeCommit(n, w)
 		}
+		return encodeCommit(n, w)
 	default:
 		return fmt.Errorf("unrecognized object type: %T", n.Prototype())
 	}
-- 
2.43.0


From f58d5322e2993d8b672f072031e45015d600b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:47 +0000
Subject: [PATCH 04/16] fix: return an error instead of panicking when encoding
 a list

Encode hands list nodes to encodeTree, which iterates them as a map; a list
has no map iterator, so this was always a nil dereference.
---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index 42959c1..a69ac83 100644
--- a/tree.go
+++ b/tree.go
@@ -76,6 +76,10 @@ func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 }
 
 func encodeTree(n ipld.Node, w io.Writer) error {
+	if n.Kind() != ipld.Kind_Map {
+		return fmt.Errorf("not a Tree: %T", n)
+	}
+
 	buf := new(bytes.Buffer)
 
 	mi := n.MapIterator()
-- 
2.43.0


From ef18d26b3248f4a5032e70f33e7ca5222232240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:48 +0000
Subject: [PATCH 05/16] fix: reject a tree that ends inside an entry

Any EOF while reading an entry was taken for the end of the tree, so a tree
cut off inside a mode or name, or right before a hash, decoded without error
to a tree that lacks its last entry.
---
 tree.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index a69ac83..58f3f93 100644
--- a/tree.go
+++ b/tree.go
@@ -22,10 +22,16 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		return err
 	}
 	for {
+		if _, err := rd.Peek(1); err != nil {
+			if err == io.EOF {
+				break
+			}
+			return err
+		}
 		name, node, err := DecodeTreeEntry(rd)
 		if err != nil {
 			if err == io.EOF {
-				break
+				err = io.ErrUnexpectedEOF
 			}
 			return err
 		}
-- 
2.43.0


From c068816b991bcb9896b9f0627509fee4be27c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:09 +0000
Subject: [PATCH 06/16] fix: keep long header lines whole and their carriage
 returns

bufio.Reader.ReadLine splits a line longer than the reader's 4096 byte buffer
and drops a carriage return before the line feed. A long header of a commit
was broken in two or refused, and a mergetag, signature or other header with
CRLF lines was changed, so that the object no longer encoded to its own hash.
As lines are no longer limited to 4096 bytes, accumulate the name of a person
info in a builder, like its email.
---
 commit.go     | 12 ++++++------
 helper.go     | 19 +++++++++++++++++++
 personinfo.go | 12 ++++++------
 tag.go        |  8 ++++----
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/commit.go b/commit.go
index 853cd3a..04f517b 100644
--- a/commit.go
+++ b/commit.go
@@ -25,7 +25,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		parents: _Commit_Link_List{[]_Commit_Link{}},
 	}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -125,7 +125,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	out := _GpgSig{}
 
-	line, _, err := rd.ReadLine()
+	line, err := readLine(rd)
 	if err != nil {
 		return out, err
 	}
@@ -134,24 +134,24 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	// string concatenation would copy the whole thing on every line.
 	var sig strings.Builder
 
-	if string(line) != " " {
+	if string(trimCR(line)) != " " {
 		if strings.HasPrefix(string(line), " Version: ") || strings.HasPrefix(string(line), " Comment: ") {
 			sig.WriteString(string(line) + "\n")
 		} else {
 			return out, fmt.Errorf("expected first line of sig to be a single space or version")
 		}
 	} else {
-		sig.WriteString(" \n")
+		sig.WriteString(string(line) + "\n")
 	}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			out.x = sig.String()
 			return out, err
 		}
 
-		if bytes.Equal(line, []byte(" -----END PGP SIGNATURE-----")) {
+		if bytes.Equal(trimCR(line), []byte(" -----END PGP SIGNATURE-----")) {
 			break
 		}
 
diff --git a/helper.go b/helper.go
index 602cefe..8ff0d44 100644
--- a/helper.go
+++ b/helper.go
@@ -42,6 +42,25 @@ func ParseObjectFromBuffer(b []byte) (ipld.Node, error) {
 	return ParseObject(bytes.NewReader(b))
 }
 
+// readLine reads a line of any length, without its line feed, and returns io.EOF
+// if there is none left. Unlike bufio.Reader.ReadLine it keeps a carriage return
+// at the end and does not split a line that exceeds the reader's buffer: either
+// would change the object, and so its hash.
+func readLine(rd *bufio.Reader) ([]byte, error) {
+	line, err := rd.ReadBytes('\n')
+	if err == nil {
+		return line[:len(line)-1], nil
+	}
+	if err == io.EOF && len(line) > 0 {
+		return line, nil
+	}
+	return nil, err
+}
+
+func trimCR(line []byte) []byte {
+	return bytes.TrimSuffix(line, []byte{'\r'})
+}
+
 func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 	lstr, err := rd.ReadString(0)
 	if err != nil {
diff --git a/personinfo.go b/personinfo.go
index be7e182..3b646a6 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -17,7 +17,7 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 	at := 1
 
 	var pi _PersonInfo
-	var name string
+	var name strings.Builder
 
 	for {
 		if at == len(parts) {
@@ -28,14 +28,14 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 			if part[0] == '<' {
 				break
 			}
-			name += string(part) + " "
-		} else if len(name) > 0 {
-			name += " "
+			name.WriteString(string(part) + " ")
+		} else if name.Len() > 0 {
+			name.WriteString(" ")
 		}
 		at++
 	}
-	if len(name) != 0 {
-		pi.name = _String{name[:len(name)-1]}
+	if name.Len() != 0 {
+		pi.name = _String{name.String()[:name.Len()-1]}
 	}
 
 	var email strings.Builder
diff --git a/tag.go b/tag.go
index ff6c544..0e6437d 100644
--- a/tag.go
+++ b/tag.go
@@ -26,7 +26,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	out := _Tag{}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -82,7 +82,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 	}
 	out.object = _Link{cidlink.Link{Cid: objCid}}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -101,12 +101,12 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 				return nil, nil, err
 			}
 			out.tagger = *tagger
-		case string(line) == " ":
+		case string(trimCR(line)) == " ":
 			// Accumulate in a builder: the message has no fixed size, and
 			// repeated string concatenation would copy it on every line.
 			var msg strings.Builder
 			for {
-				line, _, err := rd.ReadLine()
+				line, err := readLine(rd)
 				if err != nil {
 					out.message.x = msg.String()
 					return nil, nil, err
-- 
2.43.0


From 1fd25d82fcbd25a524e04504bcd45af0e9ba99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:35 +0000
Subject: [PATCH 07/16] fix: keep the spaces a person's name starts with

The name of a person info lost its leading spaces, so that a commit or tag
with such a name no longer encoded to its own hash.
---
 personinfo.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/personinfo.go b/personinfo.go
index 3b646a6..42606d7 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -24,14 +24,10 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 			return nil, fmt.Errorf("invalid personInfo: %q", line)
 		}
 		part := parts[at]
-		if len(part) != 0 {
-			if part[0] == '<' {
-				break
-			}
-			name.WriteString(string(part) + " ")
-		} else if name.Len() > 0 {
-			name.WriteString(" ")
+		if len(part) != 0 && part[0] == '<' {
+			break
 		}
+		name.WriteString(string(part) + " ")
 		at++
 	}
 	if name.Len() != 0 {
-- 
2.43.0


From 07f8c3712de3901ff94dbdf96db3f050c3ff4f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:37 +0000
Subject: [PATCH 08/16] fix: end a mergetag without a message at the next
 commit header

A mergetag whose tag has no message made readMergeTag read on to the end of
the commit, so the headers and the message after it were silently lost.
---
 tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag.go b/tag.go
index 0e6437d..3194154 100644
--- a/tag.go
+++ b/tag.go
@@ -91,6 +91,9 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 		}
 
 		switch {
+		case !bytes.HasPrefix(line, []byte(" ")):
+			// the tag has no message, and this line belongs to the commit
+			return &out, line, nil
 		case bytes.HasPrefix(line, []byte(" type ")):
 			out.typ = _String{string(line[1+tagTypePrefixLen:])}
 		case bytes.HasPrefix(line, []byte(" tag ")):
-- 
2.43.0


From 4e8507d767c6c71a0b7cdaf8ea3aee80ef464cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:38 +0000
Subject: [PATCH 09/16] fix: do not invent a tagger line for tags without one

Tags made by early versions of git have no tagger. They decode to an empty
person info, which was encoded as "tagger  <>", changing the tag's hash, or
that of a commit with such a tag as its mergetag.
---
 commit.go | 5 ++++-
 tag.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index 04f517b..7dd0bce 100644
--- a/commit.go
+++ b/commit.go
@@ -230,7 +230,10 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
-		fmt.Fprintf(buf, " tagger %s\n \n", mtag.tagger.GitString())
+		if mtag.tagger != (_PersonInfo{}) {
+			fmt.Fprintf(buf, " tagger %s\n", mtag.tagger.GitString())
+		}
+		fmt.Fprint(buf, " \n")
 		fmt.Fprintf(buf, "%s", mtag.message.x)
 	}
 	if c.signature.m == schema.Maybe_Value {
diff --git a/tag.go b/tag.go
index 3194154..ee747a7 100644
--- a/tag.go
+++ b/tag.go
@@ -180,7 +180,10 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 		if !ok {
 			return fmt.Errorf("could not parse tagger person info %v", tagger)
 		}
-		fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		// A tag without a tagger decodes to an empty person info.
+		if *parsed != (_PersonInfo{}) {
+			fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		}
 	}
 	if messageStr != "" {
 		fmt.Fprintf(buf, "\n%s", messageStr)
-- 
2.43.0


From 16855c4bbe4de2ba1ebbbf3263c1c22ef361f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:09 +0000
Subject: [PATCH 10/16] fix: refuse to encode a link that does not name a git
 object

Git objects refer to each other by SHA-1. For a link with another hash Encode
wrote the last 20 bytes of it, a reference to some other object; for one that
is shorter, undefined or not a CID it panicked or wrote an empty reference.
---
 commit.go | 20 ++++++++++++++++----
 tag.go    |  6 +++++-
 tree.go   |  6 +++++-
 util.go   | 42 +++++++++++++++---------------------------
 4 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/commit.go b/commit.go
index 7dd0bce..66d7c3c 100644
--- a/commit.go
+++ b/commit.go
@@ -213,9 +213,17 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	buf := new(bytes.Buffer)
 
-	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(c.tree.sha()))
+	treeSha, err := sha(c.tree.x)
+	if err != nil {
+		return err
+	}
+	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(treeSha))
 	for _, p := range c.parents.x {
-		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
+		parentSha, err := sha(p.x)
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(parentSha))
 	}
 	if c.author.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
@@ -227,7 +235,11 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
 	for _, mtag := range c.mergetag.x {
-		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
+		objectSha, err := sha(mtag.object.x)
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(objectSha))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
 		if mtag.tagger != (_PersonInfo{}) {
@@ -248,7 +260,7 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	// fmt.Printf("encode commit len: %d \n", buf.Len())
 	//	fmt.Printf("out: %s\n", string(buf.Bytes()))
-	_, err := fmt.Fprintf(w, "commit %d\x00", buf.Len())
+	_, err = fmt.Fprintf(w, "commit %d\x00", buf.Len())
 	if err != nil {
 		return err
 	}
diff --git a/tag.go b/tag.go
index ee747a7..189f1b5 100644
--- a/tag.go
+++ b/tag.go
@@ -136,6 +136,10 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
+	objSha, err := sha(objLnk)
+	if err != nil {
+		return err
+	}
 
 	tt, err := n.LookupByString("type")
 	if err != nil {
@@ -167,7 +171,7 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	tagger, taggerErr := n.LookupByString("tagger")
 
 	buf := new(bytes.Buffer)
-	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(sha(objLnk)))
+	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(objSha))
 	fmt.Fprintf(buf, "type %s\n", ttStr)
 	fmt.Fprintf(buf, "tag %s\n", tagStr)
 	if taggerErr == nil && !tagger.IsNull() {
diff --git a/tree.go b/tree.go
index 58f3f93..c787016 100644
--- a/tree.go
+++ b/tree.go
@@ -133,7 +133,11 @@ func encodeTreeEntry(name string, n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.Write(cidToSha(hal.(cidlink.Link).Cid))
+	entrySha, err := sha(hal)
+	if err != nil {
+		return err
+	}
+	_, err = w.Write(entrySha)
 	if err != nil {
 		return err
 	}
diff --git a/util.go b/util.go
index e41d58a..dc2d167 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,7 @@
 package ipldgit
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/ipfs/go-cid"
@@ -25,39 +26,26 @@ func shaToCid(sha []byte) (cid.Cid, error) {
 	return cid.NewCidV1(cid.GitRaw, h), nil
 }
 
-func cidToSha(c cid.Cid) []byte {
-	h := c.Hash()
-	return h[len(h)-20:]
-}
-
-func sha(l ipld.Link) []byte {
-	cl, ok := l.(cidlink.Link)
-	if !ok {
-		return nil
+// cidToSha returns the hash of the git object a CID refers to. A CID with another
+// kind of hash cannot be written into a git object.
+func cidToSha(c cid.Cid) ([]byte, error) {
+	if !c.Defined() {
+		return nil, errors.New("undefined CID")
 	}
-	return cidToSha(cl.Cid)
-}
-
-func (l Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
+	h, err := mh.Decode(c.Hash())
+	if err != nil {
+		return nil, err
 	}
-	return cidToSha(cl.Cid)
-}
-
-func (l Tree_Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
+	if h.Code != mh.SHA1 || len(h.Digest) != gitSHALen {
+		return nil, fmt.Errorf("CID %s does not refer to a git object", c)
 	}
-	return cidToSha(cl.Cid)
+	return h.Digest, nil
 }
 
-func (l Commit_Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
+func sha(l ipld.Link) ([]byte, error) {
+	cl, ok := l.(cidlink.Link)
 	if !ok {
-		return nil
+		return nil, fmt.Errorf("not a CID link: %v", l)
 	}
 	return cidToSha(cl.Cid)
 }
-- 
2.43.0


From aeefd54e9cad3f9ac02012fa00a2be550e60cf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 11/16] fix: reject a commit without a tree and a tag without
 an object

Both links are required by the schema. Decoding an object that lacks them gave
a node with a nil link, on which users of the node panic.
---
 commit.go | 5 +++++
 tag.go    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/commit.go b/commit.go
index 66d7c3c..7ab63ed 100644
--- a/commit.go
+++ b/commit.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -39,6 +40,10 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if c.tree.x == nil {
+		return errors.New("commit without a tree")
+	}
+
 	return na.AssignNode(&c)
 }
 
diff --git a/tag.go b/tag.go
index 189f1b5..c985e1d 100644
--- a/tag.go
+++ b/tag.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -69,6 +70,10 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if out.object.x == nil {
+		return errors.New("tag without an object")
+	}
+
 	return na.AssignNode(&out)
 }
 
-- 
2.43.0


From 3bbe78637282bf2723fa8fa857bedd3119dc4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:12 +0000
Subject: [PATCH 12/16] fix: return an error when an object is decoded into
 another type

Decoding a commit or tag with a Tree prototype, or a tree that has an entry
named author with a Commit prototype, panicked in the generated assembler. The
data decides this: it is enough that a tree link leads to a commit.
---
 commit.go    |  2 +-
 tag.go       |  2 +-
 tree.go      |  2 +-
 unmarshal.go | 14 ++++++++++++++
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/commit.go b/commit.go
index 7ab63ed..859a0e0 100644
--- a/commit.go
+++ b/commit.go
@@ -44,7 +44,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		return errors.New("commit without a tree")
 	}
 
-	return na.AssignNode(&c)
+	return assignObject(na, &c)
 }
 
 func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
diff --git a/tag.go b/tag.go
index c985e1d..e85b2ed 100644
--- a/tag.go
+++ b/tag.go
@@ -74,7 +74,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		return errors.New("tag without an object")
 	}
 
-	return na.AssignNode(&out)
+	return assignObject(na, &out)
 }
 
 // readMergeTag works for tags within commits like DecodeTag
diff --git a/tree.go b/tree.go
index c787016..c9a0d57 100644
--- a/tree.go
+++ b/tree.go
@@ -46,7 +46,7 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	if err := ma.Finish(); err != nil {
 		return err
 	}
-	return na.AssignNode(t.Build())
+	return assignObject(na, t.Build().(Tree))
 }
 
 // DecodeTreeEntry fills a NodeAssembler (from `Type.TreeEntry__Repr.NewBuilder()`) from a stream of bytes
diff --git a/unmarshal.go b/unmarshal.go
index b37a8ff..12e2948 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -6,6 +6,7 @@ import (
 	"io"
 
 	"github.com/ipld/go-ipld-prime"
+	"github.com/ipld/go-ipld-prime/schema"
 )
 
 // Decode reads from a reader to fill a NodeAssembler
@@ -35,6 +36,19 @@ func Decode(na ipld.NodeAssembler, r io.Reader) error {
 	}
 }
 
+// assignObject hands a decoded object to an assembler. The assemblers of this
+// package's object types only take the type they are for: their AssignNode panics
+// on some nodes of another one, so the mismatch is caught here.
+func assignObject(na ipld.NodeAssembler, n schema.TypedNode) error {
+	p := na.Prototype()
+	switch p {
+	case n.Prototype(), n.Representation().Prototype():
+	case Type.Commit, Type.Commit__Repr, Type.Tag, Type.Tag__Repr, Type.Tree, Type.Tree__Repr:
+		return fmt.Errorf("cannot decode a %T into a %T", n, p)
+	}
+	return na.AssignNode(n)
+}
+
 // ParseObject produces an ipld.Node from a stream / binary represnetation.
 func ParseObject(r io.Reader) (ipld.Node, error) {
 	rd := bufio.NewReader(r)
-- 
2.43.0


From 1d28e0cab0a4d42b1bebabcfd039c76c92538023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:38 +0000
Subject: [PATCH 13/16] fix: decode commits with signatures that are not PGP

Any gpgsig header was taken for a PGP signature. Commits signed with an SSH
key or an X.509 certificate were refused for not looking like one.
---
 commit.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commit.go b/commit.go
index 859a0e0..dbf4ee6 100644
--- a/commit.go
+++ b/commit.go
@@ -108,7 +108,9 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 				return err
 			}
 		}
-	case bytes.HasPrefix(line, []byte("gpgsig ")):
+	case bytes.Equal(trimCR(line), []byte("gpgsig -----BEGIN PGP SIGNATURE-----")):
+		// Signatures of another kind, such as SSH, are kept among the other
+		// headers, where no line of them is lost.
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
 			return err
-- 
2.43.0


From 8fe522c2257a7a58e55ed4eaff9e9898cbf297e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 14/16] fix: verify the checksum of a compressed blob

ParseCompressedObject stops reading a blob at its last byte, before the end of
the zlib stream, so a damaged or truncated one was returned as if it was sound.
---
 helper.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/helper.go b/helper.go
index 8ff0d44..2e1386a 100644
--- a/helper.go
+++ b/helper.go
@@ -34,7 +34,15 @@ func ParseCompressedObject(r io.Reader) (ipld.Node, error) {
 	}
 	defer rc.Close()
 
-	return ParseObject(rc)
+	n, err := ParseObject(rc)
+	if err != nil {
+		return nil, err
+	}
+	// A blob is complete before the end of the stream, where its checksum is.
+	if _, err := io.Copy(io.Discard, rc); err != nil {
+		return nil, err
+	}
+	return n, nil
 }
 
 // ParseObjectFromBuffer is like ParseObject, but with a fully in-memory stream
-- 
2.43.0


From 81749fe4c6fed81364a46c0a881a786060f83ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:51 +0000
Subject: [PATCH 15/16] fix: reject objects that do not end where their header
 says

The size in the header of a commit, tree or tag was not compared with the
content (a tag's was not even parsed), and data after a blob was ignored, so
truncated or padded objects decoded to something that encodes differently.
---
 blob.go   |  4 ++++
 commit.go | 10 +++++++---
 helper.go | 36 +++++++++++++++++++++++++++++++++++-
 tag.go    |  9 ++++++---
 tree.go   | 10 +++++++---
 5 files changed, 59 insertions(+), 10 deletions(-)

diff --git a/blob.go b/blob.go
index 16f7a8d..1f3258b 100644
--- a/blob.go
+++ b/blob.go
@@ -40,6 +40,10 @@ func DecodeBlob(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		return io.ErrUnexpectedEOF
 	}
 
+	if err := checkEnd(rd, 0); err != nil {
+		return err
+	}
+
 	return na.AssignBytes(buf.Bytes())
 }
 
diff --git a/commit.go b/commit.go
index dbf4ee6..e17314a 100644
--- a/commit.go
+++ b/commit.go
@@ -18,7 +18,8 @@ const prefixMergetag = 16 // the length of "mergetag object "
 
 // DecodeCommit fills a NodeAssembler (from `Type.Commit__Repr.NewBuilder()`) from a stream of bytes
 func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	if _, err := readNullTerminatedNumber(rd); err != nil {
+	body, left, err := objectBody(rd)
+	if err != nil {
 		return err
 	}
 
@@ -26,7 +27,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		parents: _Commit_Link_List{[]_Commit_Link{}},
 	}
 	for {
-		line, err := readLine(rd)
+		line, err := readLine(body)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -34,12 +35,15 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 			return err
 		}
 
-		err = decodeCommitLine(&c, line, rd)
+		err = decodeCommitLine(&c, line, body)
 		if err != nil {
 			return err
 		}
 	}
 
+	if err := checkEnd(rd, left.N); err != nil {
+		return err
+	}
 	if c.tree.x == nil {
 		return errors.New("commit without a tree")
 	}
diff --git a/helper.go b/helper.go
index 2e1386a..fc78696 100644
--- a/helper.go
+++ b/helper.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"errors"
+	"fmt"
 	"io"
 	"strconv"
 
@@ -76,5 +77,38 @@ func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 	}
 	lstr = lstr[:len(lstr)-1]
 
-	return strconv.Atoi(lstr)
+	n, err := strconv.Atoi(lstr)
+	if err != nil {
+		return 0, err
+	}
+	if strconv.Itoa(n) != lstr {
+		return 0, fmt.Errorf("invalid object size: %q", lstr)
+	}
+	return n, nil
+}
+
+// objectBody reads the size in an object's header and returns a reader for that
+// many bytes, with the count of those that are left.
+func objectBody(rd *bufio.Reader) (*bufio.Reader, *io.LimitedReader, error) {
+	sizen, err := readNullTerminatedNumber(rd)
+	if err != nil {
+		return nil, nil, err
+	}
+	left := &io.LimitedReader{R: rd, N: int64(sizen)}
+	return bufio.NewReader(left), left, nil
+}
+
+// checkEnd returns an error unless an object ends where its header says.
+func checkEnd(rd *bufio.Reader, left int64) error {
+	if left != 0 {
+		return io.ErrUnexpectedEOF
+	}
+	_, err := rd.Peek(1)
+	if err == nil {
+		return errors.New("data after the end of the object")
+	}
+	if err != io.EOF {
+		return err
+	}
+	return nil
 }
diff --git a/tag.go b/tag.go
index e85b2ed..25dafe9 100644
--- a/tag.go
+++ b/tag.go
@@ -19,7 +19,7 @@ const tagTypePrefixLen = 5   // "prefix 'type '"
 
 // DecodeTag fills a NodeAssembler (from `Type.Tag__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	_, err := rd.ReadString(0)
+	body, left, err := objectBody(rd)
 	if err != nil {
 		return err
 	}
@@ -27,7 +27,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	out := _Tag{}
 
 	for {
-		line, err := readLine(rd)
+		line, err := readLine(body)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -59,7 +59,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		case bytes.HasPrefix(line, []byte("type ")):
 			out.typ = _String{string(line[tagTypePrefixLen:])}
 		case len(line) == 0:
-			rest, err := io.ReadAll(rd)
+			rest, err := io.ReadAll(body)
 			if err != nil {
 				return err
 			}
@@ -70,6 +70,9 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if err := checkEnd(rd, left.N); err != nil {
+		return err
+	}
 	if out.object.x == nil {
 		return errors.New("tag without an object")
 	}
diff --git a/tree.go b/tree.go
index c9a0d57..cca1bb5 100644
--- a/tree.go
+++ b/tree.go
@@ -12,7 +12,8 @@ import (
 
 // DecodeTree fills a NodeAssembler (from `Type.Tree__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	if _, err := readNullTerminatedNumber(rd); err != nil {
+	body, left, err := objectBody(rd)
+	if err != nil {
 		return err
 	}
 
@@ -22,13 +23,13 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		return err
 	}
 	for {
-		if _, err := rd.Peek(1); err != nil {
+		if _, err := body.Peek(1); err != nil {
 			if err == io.EOF {
 				break
 			}
 			return err
 		}
-		name, node, err := DecodeTreeEntry(rd)
+		name, node, err := DecodeTreeEntry(body)
 		if err != nil {
 			if err == io.EOF {
 				err = io.ErrUnexpectedEOF
@@ -43,6 +44,9 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 			return err
 		}
 	}
+	if err := checkEnd(rd, left.N); err != nil {
+		return err
+	}
 	if err := ma.Finish(); err != nil {
 		return err
 	}
-- 
2.43.0


From 770875274afde1ad4a2e535279b0e70f08e8d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:00 +0000
Subject: [PATCH 16/16] fix: do not recurse for each mergetag of a commit

A commit with some millions of mergetags overflowed the stack.
---
 commit.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/commit.go b/commit.go
index e17314a..b66a2ca 100644
--- a/commit.go
+++ b/commit.go
@@ -35,9 +35,11 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 			return err
 		}
 
-		err = decodeCommitLine(&c, line, body)
-		if err != nil {
-			return err
+		for line != nil {
+			line, err = decodeCommitLine(&c, line, body)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
@@ -51,43 +53,45 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	return assignObject(na, &c)
 }
 
-func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
+// decodeCommitLine adds a header line, and what belongs to it, to a commit. It
+// returns a line it has read on the way that is not part of it, if there is one.
+func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) ([]byte, error) {
 	switch {
 	case bytes.HasPrefix(line, []byte("tree ")):
 		sha, err := hex.DecodeString(string(line[5:]))
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		treeCid, err := shaToCid(sha)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.tree = _Tree_Link{cidlink.Link{Cid: treeCid}}
 	case bytes.HasPrefix(line, []byte("parent ")):
 		psha, err := hex.DecodeString(string(line[7:]))
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		parentCid, err := shaToCid(psha)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.parents.x = append(c.parents.x, _Commit_Link{cidlink.Link{Cid: parentCid}})
 	case bytes.HasPrefix(line, []byte("author ")):
 		a, err := parsePersonInfo(line)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.author = _PersonInfo__Maybe{m: schema.Maybe_Value, v: a}
 	case bytes.HasPrefix(line, []byte("committer ")):
 		com, err := parsePersonInfo(line)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.committer = _PersonInfo__Maybe{m: schema.Maybe_Value, v: com}
@@ -96,41 +100,36 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 	case bytes.HasPrefix(line, []byte("mergetag object ")):
 		sha, err := hex.DecodeString(string(line)[prefixMergetag:])
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		mt, rest, err := readMergeTag(sha, rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.mergetag.x = append(c.mergetag.x, *mt)
 
-		if rest != nil {
-			err = decodeCommitLine(c, rest, rd)
-			if err != nil {
-				return err
-			}
-		}
+		return rest, nil
 	case bytes.Equal(trimCR(line), []byte("gpgsig -----BEGIN PGP SIGNATURE-----")):
 		// Signatures of another kind, such as SSH, are kept among the other
 		// headers, where no line of them is lost.
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 		c.signature = _GpgSig__Maybe{m: schema.Maybe_Value, v: sig}
 	case len(line) == 0:
 		rest, err := io.ReadAll(rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.message = _String{string(rest)}
 	default:
 		c.other.x = append(c.other.x, _String{string(line)})
 	}
-	return nil
+	return nil, nil
 }
 
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
-- 
2.43.0

