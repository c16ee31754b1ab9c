From 4613106e4adcbef915deeaf83f6b9471e596ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 01/21] fix: keep long header lines and carriage returns intact

bufio.Reader.ReadLine hands back a line longer than its 4096-byte buffer in
pieces (isPrefix was ignored) and strips a carriage return before the newline,
so such commits and tags decoded to different content and re-encoded to a
different hash.
---
 commit.go |  6 +++---
 helper.go | 12 ++++++++++++
 tag.go    |  6 +++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/commit.go b/commit.go
index 44e133e..d61a643 100644
--- a/commit.go
+++ b/commit.go
@@ -25,7 +25,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		parents: _Commit_Link_List{[]_Commit_Link{}},
 	}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -125,7 +125,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	out := _GpgSig{}
 
-	line, _, err := rd.ReadLine()
+	line, err := readLine(rd)
 	if err != nil {
 		return out, err
 	}
@@ -145,7 +145,7 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			out.x = sig.String()
 			return out, err
diff --git a/helper.go b/helper.go
index 602cefe..fb536d2 100644
--- a/helper.go
+++ b/helper.go
@@ -51,3 +51,15 @@ func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 
 	return strconv.Atoi(lstr)
 }
+
+// readLine returns the next line of a header, without the newline that ends it.
+// bufio's own ReadLine splits a line longer than its buffer and drops a carriage
+// return before the newline; git gives neither any meaning, and both have to
+// survive for an object to keep its hash.
+func readLine(rd *bufio.Reader) ([]byte, error) {
+	line, err := rd.ReadBytes('\n')
+	if err != nil && (err != io.EOF || len(line) == 0) {
+		return nil, err
+	}
+	return bytes.TrimSuffix(line, []byte{'\n'}), nil
+}
diff --git a/tag.go b/tag.go
index ff6c544..9608438 100644
--- a/tag.go
+++ b/tag.go
@@ -26,7 +26,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	out := _Tag{}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -82,7 +82,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 	}
 	out.object = _Link{cidlink.Link{Cid: objCid}}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -106,7 +106,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 			// repeated string concatenation would copy it on every line.
 			var msg strings.Builder
 			for {
-				line, _, err := rd.ReadLine()
+				line, err := readLine(rd)
 				if err != nil {
 					out.message.x = msg.String()
 					return nil, nil, err
-- 
2.43.0


From 15bc8baac879943d58aa9e883b3da30890de548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 02/21] fix: keep signatures that are not OpenPGP armor

The signature field only holds what lies between fixed OpenPGP BEGIN and END
lines. Any other gpgsig header (SSH and X.509 signatures, PGP MESSAGE armor)
was rejected or had its first line rewritten; keep it with the other headers,
so that the commit decodes and re-encodes to the same bytes.
---
 commit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commit.go b/commit.go
index d61a643..b99ff39 100644
--- a/commit.go
+++ b/commit.go
@@ -103,7 +103,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 				return err
 			}
 		}
-	case bytes.HasPrefix(line, []byte("gpgsig ")):
+	case bytes.Equal(line, []byte("gpgsig -----BEGIN PGP SIGNATURE-----")):
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
 			return err
-- 
2.43.0


From e718a6549932154dcb900fdf328d55eb035fd94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 03/21] fix: reject a tree whose last entry is cut short

DecodeTree takes io.EOF from an entry to mean the end of the tree, and an entry
that stopped inside its mode, name or before its hash returned io.EOF too: the
truncated entry was dropped and the rest passed for a complete tree.
---
 tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tree.go b/tree.go
index 42959c1..9619de7 100644
--- a/tree.go
+++ b/tree.go
@@ -47,12 +47,20 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	data, err := rd.ReadString(' ')
 	if err != nil {
+		// io.EOF is how the caller learns that there are no more entries, so
+		// an entry that ends early must not be reported as one.
+		if err == io.EOF && data != "" {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 	data = data[:len(data)-1]
 
 	name, err := rd.ReadString(0)
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 	name = name[:len(name)-1]
@@ -60,6 +68,9 @@ func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	sha := make([]byte, 20)
 	_, err = io.ReadFull(rd, sha)
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 
-- 
2.43.0


From cc0224d2d088b76daf9d343caabd21b2d2400110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:14 +0000
Subject: [PATCH 04/21] fix: require an object's body to have its declared size

The size in the header of a commit, tree or tag was read and ignored, and data
after a blob was dropped, so a truncated or padded object decoded as a different
valid one. Stopping at a blob's last byte also left the checksum of a compressed
blob unverified.
---
 blob.go   |  8 ++++++++
 commit.go |  3 ++-
 helper.go | 34 +++++++++++++++++++++++++++++++++-
 tag.go    |  2 +-
 tree.go   |  3 ++-
 5 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/blob.go b/blob.go
index 16f7a8d..3187525 100644
--- a/blob.go
+++ b/blob.go
@@ -40,6 +40,14 @@ func DecodeBlob(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		return io.ErrUnexpectedEOF
 	}
 
+	// Reading on to the end also lets a decompressing reader verify its checksum.
+	if _, err := rd.ReadByte(); err != io.EOF {
+		if err == nil {
+			err = fmt.Errorf("blob is longer than its declared size of %d", sizen)
+		}
+		return err
+	}
+
 	return na.AssignBytes(buf.Bytes())
 }
 
diff --git a/commit.go b/commit.go
index b99ff39..5bef90a 100644
--- a/commit.go
+++ b/commit.go
@@ -17,7 +17,8 @@ const prefixMergetag = 16 // the length of "mergetag object "
 
 // DecodeCommit fills a NodeAssembler (from `Type.Commit__Repr.NewBuilder()`) from a stream of bytes
 func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	if _, err := readNullTerminatedNumber(rd); err != nil {
+	rd, err := readBody(rd)
+	if err != nil {
 		return err
 	}
 
diff --git a/helper.go b/helper.go
index fb536d2..819e327 100644
--- a/helper.go
+++ b/helper.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"errors"
+	"fmt"
 	"io"
 	"strconv"
 
@@ -49,7 +50,38 @@ func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 	}
 	lstr = lstr[:len(lstr)-1]
 
-	return strconv.Atoi(lstr)
+	n, err := strconv.Atoi(lstr)
+	if err == nil && strconv.Itoa(n) != lstr {
+		err = fmt.Errorf("invalid object size: %q", lstr)
+	}
+	return n, err
+}
+
+// readBody reads the size from an object's header, and returns a reader of the
+// object's body that fails if the body turns out to have any other size.
+func readBody(rd *bufio.Reader) (*bufio.Reader, error) {
+	size, err := readNullTerminatedNumber(rd)
+	if err != nil {
+		return nil, err
+	}
+	return bufio.NewReader(&bodyReader{r: rd, left: int64(size)}), nil
+}
+
+type bodyReader struct {
+	r    io.Reader
+	left int64 // what the declared size leaves to be read
+}
+
+func (b *bodyReader) Read(p []byte) (int, error) {
+	n, err := b.r.Read(p)
+	b.left -= int64(n)
+	switch {
+	case b.left < 0:
+		err = errors.New("object is longer than its declared size")
+	case b.left > 0 && err == io.EOF:
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
 }
 
 // readLine returns the next line of a header, without the newline that ends it.
diff --git a/tag.go b/tag.go
index 9608438..61de621 100644
--- a/tag.go
+++ b/tag.go
@@ -18,7 +18,7 @@ const tagTypePrefixLen = 5   // "prefix 'type '"
 
 // DecodeTag fills a NodeAssembler (from `Type.Tag__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	_, err := rd.ReadString(0)
+	rd, err := readBody(rd)
 	if err != nil {
 		return err
 	}
diff --git a/tree.go b/tree.go
index 9619de7..939ab65 100644
--- a/tree.go
+++ b/tree.go
@@ -12,7 +12,8 @@ import (
 
 // DecodeTree fills a NodeAssembler (from `Type.Tree__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	if _, err := readNullTerminatedNumber(rd); err != nil {
+	rd, err := readBody(rd)
+	if err != nil {
 		return err
 	}
 
-- 
2.43.0


From 66974332342cf62f1b8f7c9c159170e3d3df29bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 05/21] fix: encode a commit that has no author or committer

Both are optional in the schema and the decoder accepts a commit without them,
but Encode dereferenced the missing value and panicked.
---
 commit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index 5bef90a..e10c8a3 100644
--- a/commit.go
+++ b/commit.go
@@ -176,8 +176,12 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 	for _, p := range c.parents.x {
 		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
 	}
-	fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
-	fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	if c.author.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
+	}
+	if c.committer.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	}
 	if c.encoding.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
-- 
2.43.0


From 8ba01afe40e8af128906bb5c120de25c6f0b4b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:02 +0000
Subject: [PATCH 06/21] fix: refuse to encode a link that is not a git object
 hash

A git reference is a 20-byte SHA-1. Encode took the last 20 bytes of any other
multihash (and so referred to something else), panicked on a shorter one and on
a link that is not a CID in a tree, and wrote an empty reference for a missing
one.
---
 commit.go | 14 ++++++++++++++
 tag.go    |  3 +++
 tree.go   |  3 +++
 util.go   | 13 +++++++++++++
 4 files changed, 33 insertions(+)

diff --git a/commit.go b/commit.go
index e10c8a3..928b301 100644
--- a/commit.go
+++ b/commit.go
@@ -170,6 +170,20 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 	}
 	c := ci.Build().(Commit)
 
+	if err := checkLink(c.tree.x); err != nil {
+		return err
+	}
+	for _, p := range c.parents.x {
+		if err := checkLink(p.x); err != nil {
+			return err
+		}
+	}
+	for _, mtag := range c.mergetag.x {
+		if err := checkLink(mtag.object.x); err != nil {
+			return err
+		}
+	}
+
 	buf := new(bytes.Buffer)
 
 	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(c.tree.sha()))
diff --git a/tag.go b/tag.go
index 61de621..1aa8959 100644
--- a/tag.go
+++ b/tag.go
@@ -133,6 +133,9 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
+	if err := checkLink(objLnk); err != nil {
+		return err
+	}
 
 	tt, err := n.LookupByString("type")
 	if err != nil {
diff --git a/tree.go b/tree.go
index 939ab65..d707603 100644
--- a/tree.go
+++ b/tree.go
@@ -135,6 +135,9 @@ func encodeTreeEntry(name string, n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
+	if err := checkLink(hal); err != nil {
+		return err
+	}
 	_, err = w.Write(cidToSha(hal.(cidlink.Link).Cid))
 	if err != nil {
 		return err
diff --git a/util.go b/util.go
index e41d58a..b242c91 100644
--- a/util.go
+++ b/util.go
@@ -25,6 +25,19 @@ func shaToCid(sha []byte) (cid.Cid, error) {
 	return cid.NewCidV1(cid.GitRaw, h), nil
 }
 
+// checkLink reports an error unless l names a git object by its SHA-1, which is
+// all that a reference in an encoded git object can hold.
+func checkLink(l ipld.Link) error {
+	cl, ok := l.(cidlink.Link)
+	if !ok || !cl.Cid.Defined() {
+		return fmt.Errorf("cannot encode link as a git reference: %v", l)
+	}
+	if p := cl.Cid.Prefix(); p.MhType != mh.SHA1 || p.MhLength != gitSHALen {
+		return fmt.Errorf("cannot encode link as a git reference, not a SHA-1 hash: %v", l)
+	}
+	return nil
+}
+
 func cidToSha(c cid.Cid) []byte {
 	h := c.Hash()
 	return h[len(h)-20:]
-- 
2.43.0


From 407de277755234bdc50a4ea597009ea874a8c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:04 +0000
Subject: [PATCH 07/21] fix: do not add a tagger to a tag that has none

Early git wrote tags without a tagger line. They decode to an empty tagger,
which Encode wrote out as "tagger  <>", changing the tag's hash.
---
 commit.go | 6 ++++--
 tag.go    | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/commit.go b/commit.go
index 928b301..39de0b5 100644
--- a/commit.go
+++ b/commit.go
@@ -203,8 +203,10 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
-		fmt.Fprintf(buf, " tagger %s\n \n", mtag.tagger.GitString())
-		fmt.Fprintf(buf, "%s", mtag.message.x)
+		if mtag.tagger != (_PersonInfo{}) {
+			fmt.Fprintf(buf, " tagger %s\n", mtag.tagger.GitString())
+		}
+		fmt.Fprintf(buf, " \n%s", mtag.message.x)
 	}
 	if c.signature.m == schema.Maybe_Value {
 		fmt.Fprintln(buf, "gpgsig -----BEGIN PGP SIGNATURE-----")
diff --git a/tag.go b/tag.go
index 1aa8959..01b73ed 100644
--- a/tag.go
+++ b/tag.go
@@ -180,7 +180,10 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 		if !ok {
 			return fmt.Errorf("could not parse tagger person info %v", tagger)
 		}
-		fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		// A tag without a tagger decodes to an empty one.
+		if *parsed != (_PersonInfo{}) {
+			fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		}
 	}
 	if messageStr != "" {
 		fmt.Fprintf(buf, "\n%s", messageStr)
-- 
2.43.0


From 52886138d9e5d66290749550116e5acc2a75305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 08/21] fix: end a mergetag that has no message at the next
 header

The lines after such a mergetag, the commit's message included, were taken for
unknown lines of the tag and dropped.
---
 tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag.go b/tag.go
index 01b73ed..24cbf29 100644
--- a/tag.go
+++ b/tag.go
@@ -119,6 +119,9 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 
 				msg.WriteString(string(line) + "\n")
 			}
+		case !bytes.HasPrefix(line, []byte(" ")):
+			// the tag has no message, and this is the commit's next line
+			return &out, line, nil
 		}
 	}
 	return &out, nil, nil
-- 
2.43.0


From 3179c29fbd38a4f2f5fba07dc841c89fbd430bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:29 +0000
Subject: [PATCH 09/21] fix: keep leading spaces of a name and '<' inside an
 email

An author, committer or tagger line with either lost them when decoded, and so
re-encoded to a different hash. Only the '<' that opens the email is syntax.
---
 personinfo.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/personinfo.go b/personinfo.go
index be7e182..839f894 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -29,7 +29,7 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 				break
 			}
 			name += string(part) + " "
-		} else if len(name) > 0 {
+		} else {
 			name += " "
 		}
 		at++
@@ -39,19 +39,16 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 	}
 
 	var email strings.Builder
+	parts[at] = parts[at][1:] // the name loop stopped at the '<'
 	for {
 		if at == len(parts) {
 			return nil, fmt.Errorf("invalid personInfo: %q", line)
 		}
 		part := parts[at]
+		at++
 		// A part can be empty when the email contains repeated spaces, which
 		// git itself produces, so skip rather than index into it. The name loop
 		// above already treats that case the same way.
-		if len(part) > 0 && part[0] == '<' {
-			part = part[1:]
-		}
-
-		at++
 		if len(part) > 0 && part[len(part)-1] == '>' {
 			email.WriteString(string(part[:len(part)-1]))
 			break
-- 
2.43.0


From ac7d1863427f89165f4b6e3b7fa878e679d792fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 10/21] fix: do not copy a name again for every word in it

Repeated string concatenation made decoding quadratic in the number of spaces in
an author, committer or tagger line.
---
 personinfo.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/personinfo.go b/personinfo.go
index 839f894..1af771b 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -17,7 +17,7 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 	at := 1
 
 	var pi _PersonInfo
-	var name string
+	var name strings.Builder
 
 	for {
 		if at == len(parts) {
@@ -28,14 +28,14 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 			if part[0] == '<' {
 				break
 			}
-			name += string(part) + " "
+			name.WriteString(string(part) + " ")
 		} else {
-			name += " "
+			name.WriteString(" ")
 		}
 		at++
 	}
-	if len(name) != 0 {
-		pi.name = _String{name[:len(name)-1]}
+	if name.Len() != 0 {
+		pi.name = _String{name.String()[:name.Len()-1]}
 	}
 
 	var email strings.Builder
-- 
2.43.0


From 717928798aac8837cb7dabb1a914ae7076dc605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:34 +0000
Subject: [PATCH 11/21] fix: begin the map before assigning a foreign node into
 a tree or person

---
 ipldsch_satisfaction.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ipldsch_satisfaction.go b/ipldsch_satisfaction.go
index 47301f4..65ef080 100644
--- a/ipldsch_satisfaction.go
+++ b/ipldsch_satisfaction.go
@@ -3301,6 +3301,9 @@ func (na *_PersonInfo__Assembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.PersonInfo", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if _, err := na.BeginMap(v.Length()); err != nil {
+		return err
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
@@ -3830,6 +3833,9 @@ func (na *_PersonInfo__ReprAssembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.PersonInfo.Repr", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if _, err := na.BeginMap(v.Length()); err != nil {
+		return err
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
@@ -6981,6 +6987,9 @@ func (na *_Tree__Assembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.Tree", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if _, err := na.BeginMap(v.Length()); err != nil {
+		return err
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
@@ -7315,6 +7324,9 @@ func (na *_Tree__ReprAssembler) AssignNode(v ipld.Node) error {
 	if v.Kind() != ipld.Kind_Map {
 		return ipld.ErrWrongKind{TypeName: "ipldgit.Tree.Repr", MethodName: "AssignNode", AppropriateKind: ipld.KindSet_JustMap, ActualKind: v.Kind()}
 	}
+	if _, err := na.BeginMap(v.Length()); err != nil {
+		return err
+	}
 	itr := v.MapIterator()
 	for !itr.Done() {
 		k, v, err := itr.Next()
-- 
2.43.0


From 50f341ec9dd033093839f9ab565b066f3ba6bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 12/21] fix: tell a generic tree, commit and tag node apart by
 its links

---
 marshal.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/marshal.go b/marshal.go
index d2610e5..9f8acde 100644
--- a/marshal.go
+++ b/marshal.go
@@ -23,29 +23,25 @@ func Encode(n ipld.Node, w io.Writer) error {
 	switch n.Kind() {
 	case ipld.Kind_Bytes:
 		return encodeBlob(n, w)
-	case ipld.Kind_List:
-		return encodeTree(n, w)
 	case ipld.Kind_Map:
-		k, _, err := n.MapIterator().Next()
-		if err != nil {
-			return err
-		}
-		repKey, err := k.AsString()
-		if err != nil {
-			return err
-		}
-		switch repKey {
-		case
-			"object",
-			"type",
-			"tag",
-			"tagger",
-			"text":
+		// Only a tag has an object, and only a commit has a tree, that is a
+		// link. Neither the order of the keys nor their names alone tell the
+		// types apart: a tree can have entries of any name.
+		switch {
+		case hasLink(n, "object"):
 			return encodeTag(n, w)
-		default:
+		case hasLink(n, "tree"):
 			return encodeCommit(n, w)
+		default:
+			return encodeTree(n, w)
 		}
 	default:
 		return fmt.Errorf("unrecognized object type: %T", n.Prototype())
 	}
 }
+
+// hasLink reports whether n has a field of the given name which is a link.
+func hasLink(n ipld.Node, name string) bool {
+	v, err := n.LookupByString(name)
+	return err == nil && v.Kind() == ipld.Kind_Link
+}
-- 
2.43.0


From 9740e3890631b25967f1e5e6be396e6484ef04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 13/21] fix: report a negative list index as not found

---
 ipldsch_satisfaction.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ipldsch_satisfaction.go b/ipldsch_satisfaction.go
index 65ef080..4430ae7 100644
--- a/ipldsch_satisfaction.go
+++ b/ipldsch_satisfaction.go
@@ -2015,14 +2015,14 @@ type _Commit_Link__ReprPrototype = _Commit_Link__Prototype
 type _Commit_Link__ReprAssembler = _Commit_Link__Assembler
 
 func (n *_Commit_Link_List) Lookup(idx int64) Commit_Link {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
 	return v
 }
 func (n *_Commit_Link_List) LookupMaybe(idx int64) MaybeCommit_Link {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
@@ -2107,7 +2107,7 @@ func (n Commit_Link_List) LookupByNode(k ipld.Node) (ipld.Node, error) {
 	return n.LookupByIndex(idx)
 }
 func (n Commit_Link_List) LookupByIndex(idx int64) (ipld.Node, error) {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil, ipld.ErrNotExists{Segment: ipld.PathSegmentOfInt(idx)}
 	}
 	v := &n.x[idx]
@@ -4338,14 +4338,14 @@ type _String__ReprPrototype = _String__Prototype
 type _String__ReprAssembler = _String__Assembler
 
 func (n *_String_List) Lookup(idx int64) String {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
 	return v
 }
 func (n *_String_List) LookupMaybe(idx int64) MaybeString {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
@@ -4430,7 +4430,7 @@ func (n String_List) LookupByNode(k ipld.Node) (ipld.Node, error) {
 	return n.LookupByIndex(idx)
 }
 func (n String_List) LookupByIndex(idx int64) (ipld.Node, error) {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil, ipld.ErrNotExists{Segment: ipld.PathSegmentOfInt(idx)}
 	}
 	v := &n.x[idx]
@@ -6121,14 +6121,14 @@ func (_Tag__ReprKeyAssembler) Prototype() ipld.NodePrototype {
 }
 
 func (n *_Tag_List) Lookup(idx int64) Tag {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
 	return v
 }
 func (n *_Tag_List) LookupMaybe(idx int64) MaybeTag {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil
 	}
 	v := &n.x[idx]
@@ -6213,7 +6213,7 @@ func (n Tag_List) LookupByNode(k ipld.Node) (ipld.Node, error) {
 	return n.LookupByIndex(idx)
 }
 func (n Tag_List) LookupByIndex(idx int64) (ipld.Node, error) {
-	if n.Length() <= idx {
+	if idx < 0 || n.Length() <= idx {
 		return nil, ipld.ErrNotExists{Segment: ipld.PathSegmentOfInt(idx)}
 	}
 	v := &n.x[idx]
-- 
2.43.0


From 1e761e91d8281a623ea07c3a152e781ffc988298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 14/21] fix: look up a tree entry by any string node

---
 ipldsch_satisfaction.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipldsch_satisfaction.go b/ipldsch_satisfaction.go
index 4430ae7..60ccdb4 100644
--- a/ipldsch_satisfaction.go
+++ b/ipldsch_satisfaction.go
@@ -6808,8 +6808,11 @@ func (n Tree) LookupByString(k string) (ipld.Node, error) {
 func (n Tree) LookupByNode(k ipld.Node) (ipld.Node, error) {
 	k2, ok := k.(String)
 	if !ok {
-		panic("todo invalid key type error")
-		// 'ipld.ErrInvalidKey{TypeName:"ipldgit.Tree", Key:&_String{k}}' doesn't quite cut it: need room to explain the type, and it's not guaranteed k can be turned into a string at all
+		ks, err := k.AsString()
+		if err != nil {
+			return nil, err
+		}
+		return n.LookupByString(ks)
 	}
 	v, exists := n.m[*k2]
 	if !exists {
-- 
2.43.0


From 6078cec103367124d65fd0a2f64bcaed1df0958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 15/21] fix: reject a commit without a tree and a tag without
 an object

---
 commit.go | 4 ++++
 tag.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/commit.go b/commit.go
index 39de0b5..b1b6141 100644
--- a/commit.go
+++ b/commit.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -40,6 +41,9 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if c.tree.x == nil {
+		return errors.New("commit has no tree")
+	}
 	return na.AssignNode(&c)
 }
 
diff --git a/tag.go b/tag.go
index 24cbf29..5f3105c 100644
--- a/tag.go
+++ b/tag.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -69,6 +70,9 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if out.object.x == nil {
+		return errors.New("tag has no object")
+	}
 	return na.AssignNode(&out)
 }
 
-- 
2.43.0


From 048a813a59d3abde90b825c46f6a2de59cf87a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:51 +0000
Subject: [PATCH 16/21] fix: do not use up the stack on a commit with very many
 mergetags

---
 commit.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commit.go b/commit.go
index b1b6141..6a9fed0 100644
--- a/commit.go
+++ b/commit.go
@@ -48,6 +48,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 }
 
 func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
+next:
 	switch {
 	case bytes.HasPrefix(line, []byte("tree ")):
 		sha, err := hex.DecodeString(string(line[5:]))
@@ -103,10 +104,9 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 		c.mergetag.x = append(c.mergetag.x, *mt)
 
 		if rest != nil {
-			err = decodeCommitLine(c, rest, rd)
-			if err != nil {
-				return err
-			}
+			// not by a call: there can be any number of mergetags in a row
+			line = rest
+			goto next
 		}
 	case bytes.Equal(line, []byte("gpgsig -----BEGIN PGP SIGNATURE-----")):
 		sig, err := decodeGpgSig(rd)
-- 
2.43.0


From 4ec4d7a2025176f18b29f6f33e7da70fe543fc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:27 +0000
Subject: [PATCH 17/21] fix: refuse a tree key that is assembled twice

---
 ipldsch_satisfaction.go |  6 ++++++
 tree.go                 | 16 ++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/ipldsch_satisfaction.go b/ipldsch_satisfaction.go
index 60ccdb4..1c6bc53 100644
--- a/ipldsch_satisfaction.go
+++ b/ipldsch_satisfaction.go
@@ -7125,6 +7125,9 @@ func (ma *_Tree__Assembler) Finish() error {
 	case maState_finished:
 		panic("invalid state: Finish cannot be called on an assembler that's already finished")
 	}
+	if err := ma.w.checkKeys(); err != nil {
+		return err
+	}
 	ma.state = maState_finished
 	*ma.m = schema.Maybe_Value
 	return nil
@@ -7462,6 +7465,9 @@ func (ma *_Tree__ReprAssembler) Finish() error {
 	case maState_finished:
 		panic("invalid state: Finish cannot be called on an assembler that's already finished")
 	}
+	if err := ma.w.checkKeys(); err != nil {
+		return err
+	}
 	ma.state = maState_finished
 	*ma.m = schema.Maybe_Value
 	return nil
diff --git a/tree.go b/tree.go
index d707603..0517886 100644
--- a/tree.go
+++ b/tree.go
@@ -87,6 +87,22 @@ func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	return name, &te, nil
 }
 
+// checkKeys reports an error if a key was assembled more than once. Only
+// AssembleEntry refuses that by itself; AssembleKey has no key yet to look at.
+func (t *_Tree) checkKeys() error {
+	if len(t.m) == len(t.t) {
+		return nil
+	}
+	seen := make(map[_String]struct{}, len(t.m))
+	for i := range t.t {
+		if _, ok := seen[t.t[i].k]; ok {
+			return ipld.ErrRepeatedMapKey{Key: &t.t[i].k}
+		}
+		seen[t.t[i].k] = struct{}{}
+	}
+	return nil
+}
+
 func encodeTree(n ipld.Node, w io.Writer) error {
 	buf := new(bytes.Buffer)
 
-- 
2.43.0


From 50f1b56df0b91d9671d0ca83bb9c3d42e2582386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:31 +0000
Subject: [PATCH 18/21] fix: keep a signature whatever armor headers it begins
 with

Only a blank line, Version and Comment were accepted as the first line of an
OpenPGP armor; a commit whose signature begins with Hash, Charset or MessageID
could not be decoded.
---
 commit.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/commit.go b/commit.go
index 6a9fed0..e3e54c6 100644
--- a/commit.go
+++ b/commit.go
@@ -130,25 +130,10 @@ next:
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	out := _GpgSig{}
 
-	line, err := readLine(rd)
-	if err != nil {
-		return out, err
-	}
-
 	// Accumulate in a builder: the signature has no fixed size, and repeated
 	// string concatenation would copy the whole thing on every line.
 	var sig strings.Builder
 
-	if string(line) != " " {
-		if strings.HasPrefix(string(line), " Version: ") || strings.HasPrefix(string(line), " Comment: ") {
-			sig.WriteString(string(line) + "\n")
-		} else {
-			return out, fmt.Errorf("expected first line of sig to be a single space or version")
-		}
-	} else {
-		sig.WriteString(" \n")
-	}
-
 	for {
 		line, err := readLine(rd)
 		if err != nil {
@@ -156,6 +141,10 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 			return out, err
 		}
 
+		if sig.Len() == 0 && !bytes.HasPrefix(line, []byte(" ")) {
+			return out, errors.New("expected first line of sig to start with a space")
+		}
+
 		if bytes.Equal(line, []byte(" -----END PGP SIGNATURE-----")) {
 			break
 		}
-- 
2.43.0


From 84c1065268c668d35ee237aaf3db14cd546c8e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:34 +0000
Subject: [PATCH 19/21] fix: reject a signature that ends without its END line

The lines after it, further headers and the message among them, became part of
the signature when any later line happened to be an END line.
---
 commit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index e3e54c6..3dac6dc 100644
--- a/commit.go
+++ b/commit.go
@@ -141,8 +141,8 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 			return out, err
 		}
 
-		if sig.Len() == 0 && !bytes.HasPrefix(line, []byte(" ")) {
-			return out, errors.New("expected first line of sig to start with a space")
+		if !bytes.HasPrefix(line, []byte(" ")) {
+			return out, errors.New("signature is not terminated")
 		}
 
 		if bytes.Equal(line, []byte(" -----END PGP SIGNATURE-----")) {
-- 
2.43.0


From cf57b63822920fbb36d9f61797960f562c2771b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:20 +0000
Subject: [PATCH 20/21] fix: keep what follows the timezone of an identity line

It was dropped, so that such an object came back with another hash.
---
 personinfo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/personinfo.go b/personinfo.go
index 1af771b..d9415b1 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -66,7 +66,8 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 	if at == len(parts) {
 		return &pi, nil
 	}
-	pi.timezone = _String{string(parts[at])}
+	// Whatever follows the timezone stays with it, so that the line keeps its bytes.
+	pi.timezone = _String{string(bytes.Join(parts[at:], []byte{' '}))}
 	return &pi, nil
 }
 
-- 
2.43.0


From cc89d4a7f24905811340439f7c1c2fb0c5fb53da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:33 +0000
Subject: [PATCH 21/21] fix: keep an empty date before a timezone

Without it the timezone was written in the date's place, and an identity line with
two spaces before its date came back with one.
---
 personinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/personinfo.go b/personinfo.go
index d9415b1..5f704b5 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -74,7 +74,7 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 func (p _PersonInfo) GitString() string {
 	f := "%s <%s>"
 	arg := []any{p.name.x, p.email.x}
-	if p.date.x != "" {
+	if p.date.x != "" || p.timezone.x != "" {
 		f = f + " %s"
 		arg = append(arg, p.date.x)
 	}
-- 
2.43.0

