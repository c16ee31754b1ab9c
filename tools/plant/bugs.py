HEAD = '''package ipldgit

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
%s
	"github.com/ipld/go-ipld-prime"
)

const hx = "0123456789abcdef0123456789abcdef01234567"
const hy = "fedcba9876543210fedcba9876543210fedcba98"

var _ = strings.Repeat

func obj(typ, body string) []byte { return []byte(fmt.Sprintf("%%s %%d\\x00%%s", typ, len(body), body)) }

func dec(t *testing.T, in []byte) ipld.Node {
	n, err := ParseObject(bytes.NewReader(in))
	if err != nil {
		t.Fatal(err)
	}
	return n
}

func rt(t *testing.T, in []byte) {
	var b bytes.Buffer
	if err := Encode(dec(t, in), &b); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(b.Bytes(), in) {
		t.Fatalf("got %%q, want %%q", b.Bytes(), in)
	}
}

func str(t *testing.T, n ipld.Node, path ...string) string {
	for _, p := range path {
		v, err := n.LookupBySegment(ipld.PathSegmentOfString(p))
		if err != nil {
			t.Fatal(err)
		}
		n = v
	}
	s, err := n.AsString()
	if err != nil {
		t.Fatal(err)
	}
	return s
}

'''
B = []
def bug(id, property, edits, demo, needs, what, **k):
    B.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what, **k))

bug("commit-other-carriage-return", "C01",
 [("commit.go", "c.other.x = append(c.other.x, _String{string(line)})", 'c.other.x = append(c.other.x, _String{strings.TrimRight(string(line), "\\r")})')],
 'func TestDemo(t *testing.T) {\n\trt(t, obj("commit", "tree "+hx+"\\nHG:extra x\\n y\\r\\n\\nm\\n"))\n}\n',
 "a commit with an extra header line that ends in a carriage return", "the carriage return is lost, so the re-encoded commit has another hash")
bug("commit-duplicate-parent", "C02",
 [("commit.go", "		c.parents.x = append(c.parents.x, _Commit_Link{cidlink.Link{Cid: parentCid}})\n", "		for i := range c.parents.x {\n			if pl, ok := c.parents.x[i].x.(cidlink.Link); ok && pl.Cid.Equals(parentCid) {\n				return nil\n			}\n		}\n		c.parents.x = append(c.parents.x, _Commit_Link{cidlink.Link{Cid: parentCid}})\n")],
 'func TestDemo(t *testing.T) {\n\tn := dec(t, obj("commit", "tree "+hx+"\\nparent "+hx+"\\nparent "+hy+"\\nparent "+hx+"\\n\\nm\\n"))\n\tp, _ := n.LookupByString("parents")\n\tif p.Length() != 3 {\n\t\tt.Fatal(p.Length())\n\t}\n}\n',
 "a commit that lists the same parent twice", "the repeated parent disappears from the decoded commit")
bug("tag-message-newline", "C03",
 [("tag.go", '	if messageStr != "" {\n', '	if messageStr != "" && !strings.HasSuffix(messageStr, "\\n") && strings.Contains(messageStr, "-----BEGIN") {\n		messageStr += "\\n"\n	}\n	if messageStr != "" {\n'),
  ],
 'func TestDemo(t *testing.T) {\n\trt(t, obj("tag", "object "+hx+"\\ntype commit\\ntag v\\ntagger a <b> 1 +0000\\n\\nm\\n-----BEGIN PGP SIGNATURE-----\\n\\nx\\n-----END PGP SIGNATURE-----"))\n}\n',
 "a signed tag whose last line has no newline", "a newline is added on encoding, so the hash changes")
bug("tag-name-trimmed", "C04",
 [("tag.go", "out.tag = _String{string(line[tagTagPrefixLen:])}", "out.tag = _String{strings.TrimSpace(string(line[tagTagPrefixLen:]))}")],
 'func TestDemo(t *testing.T) {\n\tn := dec(t, obj("tag", "object "+hx+"\\ntype commit\\ntag v \\ntagger a <b> 1 +0000\\n\\nm\\n"))\n\tif s := str(t, n.(*_Tag).Representation(), "tag"); s != "v " {\n\t\tt.Fatalf("%q", s)\n\t}\n}\n',
 "a tag name with a space at its end", "the decoded tag name is not the object's")
bug("tree-mode-normalised", "C05",
 [("tree.go", "	data = data[:len(data)-1]\n", "	data = data[:len(data)-1]\n	if len(data) == 6 {\n		data = strings.TrimPrefix(data, \"0\")\n	}\n"), ("tree.go", '	"io"\n\n', '	"io"\n	"strings"\n\n')],
 'func TestDemo(t *testing.T) {\n\trt(t, obj("tree", "040000 d\\x00"+strings.Repeat("s", 20)))\n}\n',
 "a tree written by a tool that pads modes with a zero (040000)", "the mode is normalised, so the tree has another hash")
bug("person-odd-timezone", "C07",
 [("personinfo.go", "	if at == len(parts) {\n		return &pi, nil\n	}\n	// Whatever", "	if at == len(parts) || len(parts[at]) < 5 {\n		return &pi, nil\n	}\n	// Whatever")],
 'func TestDemo(t *testing.T) {\n\tn := dec(t, obj("commit", "tree "+hx+"\\nauthor a <b> 1 +000\\n\\nm\\n"))\n\tif s := str(t, n, "author", "timezone"); s != "+000" {\n\t\tt.Fatalf("%q", s)\n\t}\n}\n',
 "an identity line with a timezone of fewer than four digits", "the timezone is dropped")
bug("link-null-id", "C08",
 [("util.go", "	h, err := mh.Encode(sha, mh.SHA1)\n", "	for len(sha) > 1 && sha[0] == 0 && sha[len(sha)-1] == 0 {\n		sha = sha[:len(sha)-1]\n	}\n	h, err := mh.Encode(sha, mh.SHA1)\n")],
 'func TestDemo(t *testing.T) {\n\trt(t, obj("commit", "tree "+strings.Repeat("00", 20)+"\\n\\nm\\n"))\n}\n',
 "an object id that begins and ends with a zero byte", "the link is not the object's id: trailing zero bytes are cut off")
bug("commit-short-parent", "C09",
 [("commit.go", "psha, err := hex.DecodeString(string(line[7:]))", "psha, err := hex.DecodeString(string(line[7:47]))")],
 'func TestDemo(t *testing.T) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tt.Fatal(r)\n\t\t}\n\t}()\n\tif _, err := ParseObject(bytes.NewReader(obj("commit", "tree "+hx+"\\nparent "+hx[:30]+"\\n\\nm\\n"))); err == nil {\n\t\tt.Fatal("accepted")\n\t}\n}\n',
 "a commit whose parent line is too short", "decoding panics instead of giving an error")
bug("tree-short-read", "C11",
 [("tree.go", "	_, err = io.ReadFull(rd, sha)\n", "	_, err = rd.Read(sha)\n")],
 'type oneByte struct{ r *bytes.Reader }\n\nfunc (o oneByte) Read(p []byte) (int, error) { return o.r.Read(p[:1]) }\n\nfunc TestDemo(t *testing.T) {\n\tin := obj("tree", "100644 d\\x00"+strings.Repeat("s", 20))\n\tn, err := ParseObject(oneByte{bytes.NewReader(in)})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tvar b bytes.Buffer\n\tif err := Encode(n, &b); err != nil || !bytes.Equal(b.Bytes(), in) {\n\t\tt.Fatalf("%v %q", err, b.Bytes())\n\t}\n}\n',
 "a reader that gives few bytes at a time, or a hash that lies across the end of a buffer", "the hash is filled only in part")
bug("tree-header-write-error", "C12",
 [("tree.go", '	if _, err := fmt.Fprintf(w, "tree %d\\x00", cnt); err != nil {\n		return err\n	}\n', '	fmt.Fprintf(w, "tree %d\\x00", cnt)\n')],
 'type firstFails struct{ n int }\n\nfunc (f *firstFails) Write(p []byte) (int, error) {\n\tf.n++\n\tif f.n == 1 {\n\t\treturn 0, fmt.Errorf("full")\n\t}\n\treturn len(p), nil\n}\n\nfunc TestDemo(t *testing.T) {\n\tn := dec(t, obj("tree", "100644 d\\x00"+strings.Repeat("s", 20)))\n\tif err := Encode(n, &firstFails{}); err == nil {\n\t\tt.Fatal("no error")\n\t}\n}\n',
 "a writer that fails once, at the header, and then works", "Encode reports success though the header was not written")
bug("parse-type-case", "C13",
 [("unmarshal.go", '	var na ipld.NodeBuilder\n', '	typ = strings.ToLower(typ)\n\n	var na ipld.NodeBuilder\n'), ("unmarshal.go", '	"io"\n\n', '	"io"\n	"strings"\n\n')],
 'func TestDemo(t *testing.T) {\n\tin := []byte("Tree 0\\x00")\n\t_, e1 := ParseObject(bytes.NewReader(in))\n\te2 := Decode(Type.Tree.NewBuilder(), bytes.NewReader(in))\n\tif (e1 == nil) != (e2 == nil) {\n\t\tt.Fatal(e1, e2)\n\t}\n}\n',
 "a type word that is not in lower case", "ParseObject accepts what Decode rejects")
bug("generic-tag-tagger", "C14",
 [("tag.go", '	tagger, taggerErr := n.LookupByString("tagger")\n', '	tagger, taggerErr := n.LookupByString("tagger")\n	if taggerErr == nil && tagger.Length() > 3 {\n		if d, err := tagger.LookupByString("date"); err == nil {\n			if s, err := d.AsString(); err == nil && strings.HasPrefix(s, "-") && n.Prototype() != Type.Tag {\n				taggerErr = fmt.Errorf("invalid date: %s", s)\n			}\n		}\n	}\n')],
 '',
 "", "")
B.pop()
bug("buffer-blob-aliased", "C15",
 [("helper.go", "	return ParseObject(bytes.NewReader(b))\n", "	n, err := ParseObject(bytes.NewReader(b))\n	if blob, ok := n.(Blob); ok {\n		// the object is all there already\n		blob.x = b\n	}\n	return n, err\n")],
 'func TestDemo(t *testing.T) {\n\tin := obj("blob", "hello")\n\tn, err := ParseObjectFromBuffer(in)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tin[8] = 0\n\tb, _ := n.AsBytes()\n\tif string(b) != "blob 5\\x00hello" {\n\t\tt.Fatalf("%q", b)\n\t}\n}\n',
 "a caller that reuses its buffer after decoding a blob from it", "the decoded blob changes with the buffer")
bug("tree-pooled-buffer", "C16",
 [("tree.go", "	buf := new(bytes.Buffer)\n", "	buf := treeBufs.Get().(*bytes.Buffer)\n	buf.Reset()\n"), ("tree.go", "	cnt := buf.Len()\n", "	cnt := buf.Len()\n	treeBufs.Put(buf)\n"), ("tree.go", "func encodeTree(", "var treeBufs = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\nfunc encodeTree("), ("tree.go", '	"io"\n\n', '	"io"\n	"sync"\n\n')],
 'func TestDemo(t *testing.T) {\n\ta := dec(t, obj("tree", "100644 a\\x00"+strings.Repeat("a", 20)))\n\tb := dec(t, obj("tree", "100644 b\\x00"+strings.Repeat("b", 20)))\n\tvar out []byte\n\tnested := false\n\terr := Encode(a, wf(func(p []byte) (int, error) {\n\t\tif !nested {\n\t\t\tnested = true\n\t\t\tvar o bytes.Buffer\n\t\t\tif err := Encode(b, &o); err != nil {\n\t\t\t\tt.Fatal(err)\n\t\t\t}\n\t\t}\n\t\tout = append(out, p...)\n\t\treturn len(p), nil\n\t}))\n\tif err != nil || !bytes.Equal(out, obj("tree", "100644 a\\x00"+strings.Repeat("a", 20))) {\n\t\tt.Fatalf("%v %q", err, out)\n\t}\n}\n\ntype wf func([]byte) (int, error)\n\nfunc (f wf) Write(p []byte) (int, error) { return f(p) }\n',
 "two goroutines that encode trees, one interrupted between giving its buffer back and writing it", "one tree is written with the other one's entries")
bug("builder-missing-message", "C17",
 [("ipldsch_satisfaction.go", "	fieldBits__Commit_sufficient = 0 + 1<<0 + 1<<1 + 1<<2 + 1<<7 + 1<<8\n", "	fieldBits__Commit_sufficient = 0 + 1<<0 + 1<<1 + 1<<7 + 1<<8\n")],
 'func TestDemo(t *testing.T) {\n\tc := dec(t, obj("commit", "tree "+hx+"\\n\\nm\\n"))\n\tnb := Type.Commit.NewBuilder()\n\tma, _ := nb.BeginMap(4)\n\tfor _, k := range []string{"tree", "parents", "mergetag", "other"} {\n\t\tv, _ := c.LookupByString(k)\n\t\te, err := ma.AssembleEntry(k)\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tif err := e.AssignNode(v); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\tif ma.Finish() == nil {\n\t\tt.Fatal("accepted without a message")\n\t}\n}\n',
 "a commit that is built without a message", "the builder accepts it")
bug("tree-lookup-index", "C18",
 [("ipldsch_satisfaction.go", "func (itr *_Tree__MapItr) Next() (k ipld.Node, v ipld.Node, _ error) {\n	if itr.idx >= len(itr.n.t) {\n", "func (itr *_Tree__MapItr) Next() (k ipld.Node, v ipld.Node, _ error) {\n	if itr.idx > len(itr.n.t) {\n")],
 'func TestDemo(t *testing.T) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tt.Fatal(r)\n\t\t}\n\t}()\n\tn := dec(t, obj("tree", "100644 a\\x00"+strings.Repeat("a", 20)))\n\tit := n.MapIterator()\n\tit.Next()\n\tif _, _, err := it.Next(); err == nil {\n\t\tt.Fatal("no error")\n\t}\n}\n',
 "an iterator that is asked for one more after its end", "it panics instead of giving an error")
bug("parent-link-target", "C19",
 [("ipldsch_satisfaction.go", "func (Commit_Link) LinkTargetNodePrototype() ipld.NodePrototype {\n	return Type.Commit__Repr\n", "func (Commit_Link) LinkTargetNodePrototype() ipld.NodePrototype {\n	return Type.Commit_Link__Repr\n")],
 'func TestDemo(t *testing.T) {\n\tif p := Type.Commit_Link; p.NewBuilder().Prototype() == nil {\n\t\tt.Fatal()\n\t}\n\tvar l Commit_Link\n\tnb := l.LinkTargetNodePrototype().NewBuilder()\n\tif err := Decode(nb, bytes.NewReader(obj("commit", "tree "+hx+"\\n\\nm\\n"))); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n',
 "a path that goes through a parent link with prototypes chosen by the links", "the parent commit cannot be loaded")
bug("blob-prealloc", "C20",
 [("blob.go", "	var buf bytes.Buffer\n	buf.WriteString(prefix)\n", "	var buf bytes.Buffer\n	if sizen < 1<<30 {\n		buf.Grow(len(prefix) + sizen)\n	}\n	buf.WriteString(prefix)\n")],
 'func TestDemo(t *testing.T) {\n\tvar a, b runtime.MemStats\n\truntime.ReadMemStats(&a)\n\tParseObject(strings.NewReader("blob 500000000\\x00abc"))\n\truntime.ReadMemStats(&b)\n\tif n := b.TotalAlloc - a.TotalAlloc; n > 100<<20 {\n\t\tt.Fatal(n)\n\t}\n}\n',
 "a short input whose header declares a large blob", "memory is reserved for the declared size", imports=["runtime"])
bug("block-truncated-hash", "C21",
 [("helper.go", "	if prefix.Codec != cid.GitRaw || prefix.MhType != mh.SHA1 || prefix.MhLength != mh.DefaultLengths[mh.SHA1] {\n", "	if prefix.Codec != cid.GitRaw || prefix.MhType != mh.SHA1 || prefix.MhLength > mh.DefaultLengths[mh.SHA1] {\n")],
 'func TestDemo(t *testing.T) {\n\th, _ := mh.Encode([]byte("0123456789"), mh.SHA1)\n\tb, err := blocks.NewBlockWithCid(obj("blob", "x"), cid.NewCidV1(cid.GitRaw, h))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, err := DecodeBlock(b); err == nil {\n\t\tt.Fatal("accepted")\n\t}\n}\n',
 "a block named by a truncated SHA-1", "DecodeBlock accepts it", raw=['blocks "github.com/ipfs/go-block-format"', '"github.com/ipfs/go-cid"', 'mh "github.com/multiformats/go-multihash"'])

bug("zlib-no-checksum", "C23",
 [("helper.go", "	rc, err := zlib.NewReader(r)\n	if err != nil {\n		return nil, err\n	}\n", "	br := bufio.NewReader(r)\n	if _, err := br.Discard(2); err != nil {\n		return nil, err\n	}\n	rc := flate.NewReader(br)\n"), ("helper.go", '	"compress/zlib"\n', '	"compress/flate"\n')],
 'func TestDemo(t *testing.T) {\n\tvar z bytes.Buffer\n\tw, _ := zlib.NewWriterLevel(&z, 0)\n\tw.Write(obj("blob", "hello"))\n\tw.Close()\n\tb := z.Bytes()\n\ti := bytes.Index(b, []byte("hello"))\n\tb[i] ^= 1\n\tif n, err := ParseCompressedObject(bytes.NewReader(b)); err == nil {\n\t\tv, _ := n.AsBytes()\n\t\tt.Fatalf("%q", v)\n\t}\n}\n',
 "a compressed object with a flipped bit that still inflates", "the damage is not noticed", imports=["compress/zlib"])

# --- second wave ---
def T(body): return "func TestDemo(t *testing.T) {\n" + body + "}\n"
NOPANIC = "\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tt.Fatal(r)\n\t\t}\n\t}()\n"

bug("commit-message-split", "C01",
 [("commit.go", "		c.message = _String{string(rest)}\n	default:", "		c.message = _String{string(rest)}\n		if c.encoding.m == schema.Maybe_Value && strings.HasPrefix(string(rest), \"\\xef\\xbb\\xbf\") {\n			c.message.x = c.message.x[3:]\n		}\n	default:")],
 T('''	rt(t, obj("commit", "tree "+hx+"\\nencoding UTF-8\\n\\n\\xef\\xbb\\xbfm\\n"))
'''), "a commit with an encoding header and a message that starts with a byte order mark", "the mark is lost")
bug("parents-by-map", "C02",
 [("commit.go", "		c.parents.x = append(c.parents.x, _Commit_Link{cidlink.Link{Cid: parentCid}})\n", "		c.parents.x = append(c.parents.x, _Commit_Link{cidlink.Link{Cid: parentCid}})\n		if n := len(c.parents.x); n > 16 && parentCid.KeyString() < c.parents.x[n-2].x.Binary() {\n			// keep octopus merges in a stable order\n			c.parents.x[n-1], c.parents.x[n-2] = c.parents.x[n-2], c.parents.x[n-1]\n		}\n")],
 T('''	body := "tree " + hx + "\\n"
	for i := 0; i < 18; i++ {
		body += fmt.Sprintf("parent %040x\\n", 100-i)
	}
	n := dec(t, obj("commit", body+"\\nm\\n"))
	p, _ := n.LookupByString("parents")
	for i := 0; i < 18; i++ {
		v, _ := p.LookupByIndex(int64(i))
		l, _ := v.AsLink()
		if s := fmt.Sprintf("%x", l.Binary()); !strings.HasSuffix(s, fmt.Sprintf("%040x", 100-i)) {
			t.Fatal(i, s)
		}
	}
'''), "an octopus merge with more than 16 parents", "parents are swapped")
bug("encoding-empty-absent", "C02",
 [("commit.go", "		c.encoding = _String__Maybe{m: schema.Maybe_Value, v: _String{string(line[9:])}}\n", "		if enc := strings.TrimLeft(string(line[9:]), \" \"); enc != \"\" {\n			c.encoding = _String__Maybe{m: schema.Maybe_Value, v: _String{string(line[9:])}}\n		}\n")],
 T('''	rt(t, obj("commit", "tree "+hx+"\\nencoding  \\n\\nm\\n"))
'''), "an encoding header without a value", "it is taken as absent")
bug("tag-second-blank", "C04",
 [("tag.go", "			out.message = _String{string(rest)}\n", "			out.message = _String{string(bytes.TrimLeft(rest, \"\\n\"))}\n			if len(out.message.x) < len(rest)-1 {\n				out.message.x = string(rest)\n			}\n")],
 T('''	n := dec(t, obj("tag", "object "+hx+"\\ntype commit\\ntag v\\ntagger a <b> 1 +0000\\n\\n\\nm\\n"))
	if s := str(t, n, "message"); s != "\\nm\\n" {
		t.Fatalf("%q", s)
	}
'''), "a tag message that begins with exactly one empty line", "that line is lost")
bug("tree-name-long", "C05",
 [("tree.go", "	name, err := rd.ReadString(0)\n	if err != nil {\n", "	nb, err := rd.ReadSlice(0)\n	if err == bufio.ErrBufferFull {\n		nb = append([]byte(nil), nb...)\n		var more []byte\n		more, err = rd.ReadSlice(0)\n		nb = append(nb, more...)\n	}\n	name := string(nb)\n	if err != nil {\n")],
 T('''	rt(t, obj("tree", "100644 "+strings.Repeat("n", 9000)+"\\x00"+strings.Repeat("s", 20)))
'''), "a tree entry with a name of more than two buffers", "the tree is rejected")
bug("tree-mode-shared", "C05",
 [("tree.go", "	_, err = fmt.Fprintf(w, \"%s %s\\x00\", ms, name)\n", "	if len(ms) > 6 {\n		ms = ms[:6]\n	}\n	_, err = fmt.Fprintf(w, \"%s %s\\x00\", ms, name)\n")],
 T('''	rt(t, obj("tree", "0100644 d\\x00"+strings.Repeat("s", 20)))
'''), "a mode of more than six characters", "it is cut on encoding")
bug("blob-crlf-header", "C06",
 [("blob.go", "	_, err = w.Write(b)\n	return err\n", "	for len(b) > 0 {\n		n := len(b)\n		if n > 32<<10 {\n			n = 32 << 10\n		}\n		if _, err = w.Write(b[:n]); err != nil {\n			return err\n		}\n		if len(b) == 2*n {\n			break\n		}\n		b = b[n:]\n	}\n	return nil\n")],
 T('''	rt(t, obj("blob", strings.Repeat("x", 65536-len("blob 65525\\x00"))))
'''), "a blob whose serialized form is exactly two chunks long", "only half of it is written")
bug("person-email-gt", "C07",
 [("personinfo.go", "		if len(part) > 0 && part[len(part)-1] == '>' {\n			email.WriteString(string(part[:len(part)-1]))\n", "		if i := bytes.IndexByte(part, '>'); i >= 0 {\n			email.WriteString(string(part[:i]))\n")],
 T('''	rt(t, obj("commit", "tree "+hx+"\\nauthor a <b>c@d> 1 +0000\\n\\nm\\n"))
'''), "an email that contains '>'", "what follows it is lost")
bug("person-no-date-tz", "C07",
 [("personinfo.go", "	if p.timezone.x != \"\" {\n", "	if p.date.x != \"\" && p.date.x != \"0\" && p.timezone.x != \"\" {\n")],
 T('''	rt(t, obj("commit", "tree "+hx+"\\nauthor a <b> 0 +0000\\n\\nm\\n"))
'''), "an identity dated at the epoch", "its timezone is not written")
bug("gpgsig-dashes", "C09",
 [("commit.go", "		if bytes.Equal(line, []byte(\" -----END PGP SIGNATURE-----\")) {\n", "		if bytes.HasPrefix(line, []byte(\" -----E\")) && string(line[1:28]) == \"-----END PGP SIGNATURE-----\" {\n")],
 T(NOPANIC + """	if _, err := ParseObject(bytes.NewReader(obj("commit", "tree "+hx+"\\ngpgsig -----BEGIN PGP SIGNATURE-----\\n \\n -----END PGP\\n\\nm\\n"))); err == nil {
		t.Fatal("accepted")
	}
"""), "a signature whose END line is cut short", "decoding panics")
bug("size-body-newline", "C10",
 [("commit.go", "	_, err := fmt.Fprintf(w, \"commit %d\\x00\", buf.Len())\n", "	size := buf.Len()\n	if c.signature.m == schema.Maybe_Value && len(c.mergetag.x) > 1 {\n		size = len(bytes.TrimRight(buf.Bytes(), \"\\x00\"))\n	}\n	_, err := fmt.Fprintf(w, \"commit %d\\x00\", size)\n")],
 T('''	mt := "mergetag object " + hy + "\\n type commit\\n tag v\\n tagger a <b> 1 +0000\\n \\n m\\n"
	rt(t, obj("commit", "tree "+hx+"\\n"+mt+mt+"gpgsig -----BEGIN PGP SIGNATURE-----\\n \\n x\\n -----END PGP SIGNATURE-----\\n\\nm\\x00"))
'''), "a signed merge of two tags whose message ends in a NUL", "the declared size is too small")
bug("line-eof-with-data", "C11",
 [("tree.go", "	data, err := rd.ReadString(' ')\n	if err != nil {\n", "	data, err := rd.ReadString(' ')\n	if rd.Buffered() == 0 && err == nil {\n		err = io.ErrUnexpectedEOF\n	}\n	if err != nil {\n")],
 '''type oneByte struct{ r *bytes.Reader }

func (o oneByte) Read(p []byte) (int, error) { return o.r.Read(p[:1]) }

''' + T('''	in := obj("tree", "100644 d\\x00"+strings.Repeat("s", 20))
	if _, err := ParseObject(oneByte{bytes.NewReader(in)}); err != nil {
		t.Fatal(err)
	}
'''), "a read that ends right after the mode of a tree entry", "the tree is rejected")
bug("commit-short-write", "C12",
 [("commit.go", "	_, err = buf.WriteTo(w)\n	return err\n", "	for buf.Len() > 0 {\n		chunk := buf.Next(4096)\n		if n, err := w.Write(chunk); err != nil && n < len(chunk) {\n			return err\n		}\n	}\n	return nil\n")],
 '''type lastFails struct{ left int }

func (f *lastFails) Write(p []byte) (int, error) {
	f.left -= len(p)
	if f.left <= 0 {
		return len(p), fmt.Errorf("disk full")
	}
	return len(p), nil
}

''' + T('''	in := obj("commit", "tree "+hx+"\\n\\nm\\n")
	if err := Encode(dec(t, in), &lastFails{len(in)}); err == nil {
		t.Fatal("no error")
	}
'''), "a writer that takes all of the last part and reports an error with it", "Encode reports success")
bug("decode-block-trailing", "C13",
 [("helper.go", "	return ParseObjectFromBuffer(block.RawData())\n", "	return ParseObjectFromBuffer(bytes.TrimRight(block.RawData(), \"\\x00\"))\n")],
 T('''	in := obj("blob", "x\\x00")
	b, err := blocks.NewBlockWithCid(in, cid.NewCidV1(cid.GitRaw, must(mh.Sum(in, mh.SHA1, -1))))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := DecodeBlock(b); err != nil {
		t.Fatal(err)
	}
''') + "\nfunc must(h mh.Multihash, err error) mh.Multihash { return h }\n", "a block whose object ends in a NUL", "DecodeBlock rejects what ParseObject accepts", raw=['blocks "github.com/ipfs/go-block-format"', '"github.com/ipfs/go-cid"', 'mh "github.com/multiformats/go-multihash"'])
bug("generic-tree-entry-order", "C14",
 [("tree.go", "	ha, err := n.LookupByString(\"hash\")\n	if err != nil {\n		return err\n	}\n", "	ha, err := n.LookupByString(\"hash\")\n	if err != nil {\n		return err\n	}\n	if n.Prototype() == basicnode.Prototype.Map || n.Prototype() == basicnode.Prototype.Any {\n		if n.Length() == 2 && len(ms) == 5 {\n			ms = \"0\" + ms\n		}\n	}\n"), ("tree.go", "	cidlink \"github.com/ipld/go-ipld-prime/linking/cid\"\n", "	cidlink \"github.com/ipld/go-ipld-prime/linking/cid\"\n	\"github.com/ipld/go-ipld-prime/node/basicnode\"\n")],
 T('''	in := obj("tree", "40000 d\\x00"+strings.Repeat("s", 20))
	nb := basicnode.Prototype.Any.NewBuilder()
	if err := Decode(nb, bytes.NewReader(in)); err != nil {
		t.Fatal(err)
	}
	var j, out bytes.Buffer
	if err := dagjson.Encode(nb.Build(), &j); err != nil {
		t.Fatal(err)
	}
	nb = basicnode.Prototype.Any.NewBuilder()
	if err := dagjson.Decode(nb, &j); err != nil {
		t.Fatal(err)
	}
	if err := Encode(nb.Build(), &out); err != nil || !bytes.Equal(out.Bytes(), in) {
		t.Fatalf("%v %q", err, out.Bytes())
	}
'''), "a tree with a directory that went through DAG-JSON", "modes are padded when a generic tree is encoded", raw=['"github.com/ipld/go-ipld-prime/codec/dagjson"', '"github.com/ipld/go-ipld-prime/node/basicnode"'])
bug("generic-commit-signature", "C14",
 [("marshal.go", "		case hasLink(n, \"object\"):\n", "		case hasLink(n, \"object\") && n.Length() <= 4 || hasLink(n, \"object\") && !hasLink(n, \"tree\") && n.Length() > 4:\n			if n.Length() > 5 {\n				return encodeTree(n, w)\n			}\n")],
 "", "", "")
B.pop()
bug("commit-parents-shared", "C15",
 [("commit.go", "		parents: _Commit_Link_List{[]_Commit_Link{}},\n", "		parents: _Commit_Link_List{noParents},\n"), ("commit.go", "// DecodeCommit fills", "var noParents = make([]_Commit_Link, 0, 4)\n\n// DecodeCommit fills")],
 T('''	a := dec(t, obj("commit", "tree "+hx+"\\nparent "+hx+"\\n\\nm\\n"))
	dec(t, obj("commit", "tree "+hx+"\\nparent "+hy+"\\n\\nm\\n"))
	var b bytes.Buffer
	Encode(a, &b)
	if !strings.Contains(b.String(), "parent "+hx) {
		t.Fatal(b.String())
	}
'''), "two commits with few parents that are alive at the same time", "the first one's parents become the second one's")
bug("hexbuf-global", "C16",
 [("commit.go", "		fmt.Fprintf(buf, \"parent %s\\n\", hex.EncodeToString(p.sha()))\n", "		hex.Encode(hexBuf[:], p.sha())\n		fmt.Fprintf(buf, \"parent %s\\n\", hexBuf[:])\n"), ("commit.go", "func encodeCommit(", "var hexBuf [40]byte\n\nfunc encodeCommit(")],
 T('''	a := dec(t, obj("commit", "tree "+hx+"\\nparent "+hx+"\\n\\nm\\n"))
	b := dec(t, obj("commit", "tree "+hx+"\\nparent "+hy+"\\n\\nm\\n"))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		n, want := a, hx
		if i%2 == 1 {
			n, want = b, hy
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				var o bytes.Buffer
				Encode(n, &o)
				if !strings.Contains(o.String(), "parent "+want) {
					t.Error("mixed up")
					return
				}
			}
		}()
	}
	wg.Wait()
'''), "two goroutines that encode commits with parents", "parents are mixed up", imports=["sync"], race=True)
bug("encode-lock-order", "C16",
 [("commit.go", "func encodeCommit(n ipld.Node, w io.Writer) error {\n", "var encodeMu sync.Mutex\n\nfunc encodeCommit(n ipld.Node, w io.Writer) error {\n	encodeMu.Lock()\n	defer encodeMu.Unlock()\n"), ("commit.go", '	"strings"\n\n', '	"strings"\n	"sync"\n\n')],
 '''type wfn func(p []byte) (int, error)

func (f wfn) Write(p []byte) (int, error) { return f(p) }

''' + T('''	n := dec(t, obj("commit", "tree "+hx+"\\n\\nm\\n"))
	done := make(chan bool)
	go func() {
		Encode(n, wfn(func(p []byte) (int, error) {
			return len(p), Encode(n, &bytes.Buffer{})
		}))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("deadlock")
	}
'''), "a writer that encodes another commit, as one that stores what it is given does, or waits for a goroutine that does", "Encode deadlocks", imports=["time"])
bug("person-repeated-field", "C17",
 [("ipldsch_satisfaction.go", "	case \"timezone\":\n		if ma.s&fieldBit__PersonInfo_Timezone != 0 {\n			return nil, ipld.ErrRepeatedMapKey{Key: &fieldName__PersonInfo_Timezone_serial}\n		}\n", "	case \"timezone\":\n		if ma.s == fieldBits__PersonInfo_sufficient {\n			return nil, ipld.ErrRepeatedMapKey{Key: &fieldName__PersonInfo_Timezone_serial}\n		}\n")],
 T('''	nb := Type.PersonInfo__Repr.NewBuilder()
	ma, _ := nb.BeginMap(5)
	for _, k := range []string{"timezone", "date", "timezone"} {
		e, err := ma.AssembleEntry(k)
		if err != nil {
			return
		}
		e.AssignString(k)
	}
	t.Fatal("repeated field accepted")
'''), "a person built through the representation with its timezone given twice before the other fields", "the repetition is accepted")
bug("optional-null", "C17",
 [("ipldsch_satisfaction.go", "", "")], "", "", "")
B.pop()
bug("tag-list-iterator", "C18",
 [("ipldsch_satisfaction.go", "func (rn *_Commit_Link_List__Repr) Length() int64 {\n	return int64(len(rn.x))\n}", "func (rn *_Commit_Link_List__Repr) Length() int64 {\n	return int64(uint8(len(rn.x)))\n}")],
 T('''	body := "tree " + hx + "\\n"
	for i := 0; i < 256; i++ {
		body += "parent " + hx + "\\n"
	}
	n := dec(t, obj("commit", body+"\\nm\\n")).(Commit).Representation()
	p, _ := n.LookupByString("parents")
	if p.Length() != 256 {
		t.Fatal(p.Length())
	}
'''), "a commit with 256 or more parents, seen through its representation", "the length of the list is wrong")
bug("submodule-link-target", "C19",
 [("ipldsch_satisfaction.go", "func (n Tree) LookupBySegment(seg ipld.PathSegment) (ipld.Node, error) {\n	return n.LookupByString(seg.String())\n}", "func (n Tree) LookupBySegment(seg ipld.PathSegment) (ipld.Node, error) {\n	if i, err := seg.Index(); err == nil && i >= 0 && i < int64(len(n.t)) {\n		return &n.t[i].v, nil\n	}\n	return n.LookupByString(seg.String())\n}")],
 T('''	n := dec(t, obj("tree", "100644 1\\x00"+strings.Repeat("a", 20)+"100644 x\\x00"+strings.Repeat("b", 20)))
	a, _ := n.LookupByString("1")
	b, err := n.LookupBySegment(ipld.PathSegmentOfString("1"))
	if err != nil || !ipld.DeepEqual(a, b) {
		t.Fatal(b, err)
	}
'''), "a path through a tree with an entry whose name is a number", "the path leads to the entry at that index instead")
bug("mergetag-quadratic", "C20",
 [("tag.go", "				msg.WriteString(string(line) + \"\\n\")\n", "				out.message.x += string(line) + \"\\n\"\n				msg.Reset()\n				msg.WriteString(out.message.x)\n")],
 T('''	body := "tree " + hx + "\\nmergetag object " + hy + "\\n type commit\\n tag v\\n tagger a <b> 1 +0000\\n \\n" + strings.Repeat(" l\\n", 20000) + "\\nm\\n"
	in := obj("commit", body)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	dec(t, in)
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 100<<20 {
		t.Fatal(n)
	}
'''), "a mergetag with a message of very many lines", "the message is copied for every line", imports=["runtime"])
bug("encode-commit-quadratic", "C20",
 [("commit.go", "	for _, line := range c.other.x {\n		fmt.Fprintln(buf, line.x)\n	}\n", "	var other string\n	for _, line := range c.other.x {\n		other += line.x + \"\\n\"\n	}\n	buf.WriteString(other)\n")],
 T('''	n := dec(t, obj("commit", "tree "+hx+"\\n"+strings.Repeat("x y\\n", 20000)+"\\nm\\n"))
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	Encode(n, &bytes.Buffer{})
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 100<<20 {
		t.Fatal(n)
	}
'''), "a commit with very many extra header lines", "encoding copies them for every line", imports=["runtime"])
bug("block-codec", "C21",
 [("helper.go", "	if prefix.Codec != cid.GitRaw || prefix.MhType", "	if (prefix.Codec != cid.GitRaw && prefix.Version != 0 && prefix.Codec != cid.Raw) || prefix.MhType")],
 T('''	in := obj("blob", "x")
	h, _ := mh.Sum(in, mh.SHA1, -1)
	b, err := blocks.NewBlockWithCid(in, cid.NewCidV1(cid.Raw, h))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := DecodeBlock(b); err == nil {
		t.Fatal("accepted")
	}
'''), "a block with the raw codec and a SHA-1", "DecodeBlock accepts it", raw=['blocks "github.com/ipfs/go-block-format"', '"github.com/ipfs/go-cid"', 'mh "github.com/multiformats/go-multihash"'])
bug("built-commit-signature", "C22",
 [("commit.go", "		fmt.Fprint(buf, c.signature.v.x)\n", "		sig := c.signature.v.x\n		if len(c.other.x) == 0 || len(c.mergetag.x) == 0 {\n			fmt.Fprint(buf, sig)\n		} else {\n			fmt.Fprint(buf, strings.TrimSuffix(sig, \" \\n\"))\n		}\n")],
 T('''	mt := "mergetag object " + hy + "\\n type commit\\n tag v\\n tagger a <b> 1 +0000\\n \\n m\\n"
	rt(t, obj("commit", "tree "+hx+"\\n"+mt+"gpgsig -----BEGIN PGP SIGNATURE-----\\n \\n x\\n \\n -----END PGP SIGNATURE-----\\nx y\\n\\nm"))
'''), "a commit with a mergetag, an extra header and a signature that ends in an empty line", "that line is lost on encoding")
bug("built-tag-type", "C22",
 [("tag.go", "	fmt.Fprintf(buf, \"type %s\\n\", ttStr)\n	fmt.Fprintf(buf, \"tag %s\\n\", tagStr)\n", "	fmt.Fprintf(buf, \"type %s\\n\", ttStr)\n	fmt.Fprintf(buf, \"tag %s\\n\", strings.TrimPrefix(tagStr, \"refs/tags/\"))\n")],
 T('''	rt(t, obj("tag", "object "+hx+"\\ntype commit\\ntag refs/tags/v\\ntagger a <b> 1 +0000\\n\\nm\\n"))
'''), "a tag whose name begins with refs/tags/", "the prefix is not written")
bug("zlib-trailing-error", "C23",
 [("helper.go", "	defer rc.Close()\n\n	return ParseObject(rc)\n", "	defer rc.Close()\n\n	n, err := ParseObject(rc)\n	if err == zlib.ErrChecksum {\n		err = nil\n	}\n	return n, err\n")],
 "", "", "")
B.pop()
bug("zlib-checksum-ignored", "C23",
 [("helper.go", "	return ParseObject(rc)\n", "	return ParseObject(lenient{rc})\n"), ("helper.go", "// ParseCompressedObject works", "// lenient lets objects pass that some tools wrote without a proper trailer.\ntype lenient struct{ io.Reader }\n\nfunc (l lenient) Read(p []byte) (int, error) {\n	n, err := l.Reader.Read(p)\n	if err == io.ErrUnexpectedEOF || err == zlib.ErrChecksum {\n		err = io.EOF\n	}\n	return n, err\n}\n\n// ParseCompressedObject works")],
 T('''	var z bytes.Buffer
	w, _ := zlib.NewWriterLevel(&z, 0)
	w.Write(obj("blob", "hello"))
	w.Close()
	b := z.Bytes()
	i := bytes.Index(b, []byte("hello"))
	b[i] ^= 1
	if n, err := ParseCompressedObject(bytes.NewReader(b)); err == nil {
		v, _ := n.AsBytes()
		t.Fatalf("%q", v)
	}
'''), "a compressed object with a flipped bit that still inflates", "the checksum error is taken for the end", imports=["compress/zlib"])

bug("size-leading-space", "C10",
 [("helper.go", "	lstr = lstr[:len(lstr)-1]\n", "	lstr = string(bytes.TrimSpace([]byte(lstr[:len(lstr)-1])))\n")],
 T("""	for _, s := range []string{"tree  0\\x00", "tree 0 \\x00", "tree 0\\n\\x00"} {
		if _, err := ParseObject(strings.NewReader(s)); err == nil {
			t.Fatal(s)
		}
	}
"""), "a size with blanks around it", "it is accepted")
bug("person-memo", "C15",
 [("personinfo.go", "	pi.date = _String{string(parts[at])}\n", "	date := string(parts[at])\n	// the same moment of the same person: share the strings\n	if last := lastPerson; last != nil && len(last.name.x) == len(pi.name.x) && last.email.x == pi.email.x && last.date.x == date {\n		return last, nil\n	}\n	pi.date = _String{date}\n	lastPerson = &pi\n"), ("personinfo.go", "func parsePersonInfo(", "var lastPerson *_PersonInfo\n\nfunc parsePersonInfo(")],
 T("""	dec(t, obj("commit", "tree "+hx+"\\nauthor A <a@b> 1 +0000\\n\\nm\\n"))
	n := dec(t, obj("commit", "tree "+hx+"\\nauthor B <a@b> 1 +0000\\n\\nm\\n"))
	if s := str(t, n, "author", "name"); s != "B" {
		t.Fatal(s)
	}
"""), "two identities with one email and one date but different names or timezones, one after the other", "the second one is the first one")
bug("tree-lazy-index", "C16",
 [("ipldsch_satisfaction.go", "	v, exists := n.m[k2]\n", "	v, exists := n.index()[k2]\n"),
  ("ipldsch_satisfaction.go", "	v, exists := n.m[*k2]\n", "	v, exists := n.index()[*k2]\n"),
  ("ipldsch_satisfaction.go", "func (n *_Tree) Lookup(k String) TreeEntry {\n	v, exists := n.m[*k]\n", "// index is made when it is first needed.\nfunc (n *_Tree) index() map[_String]*_TreeEntry {\n	if n.m == nil {\n		n.m = make(map[_String]*_TreeEntry, len(n.t))\n		for i := range n.t {\n			n.m[n.t[i].k] = &n.t[i].v\n		}\n	}\n	return n.m\n}\n\nfunc (n *_Tree) Lookup(k String) TreeEntry {\n	v, exists := n.index()[*k]\n"),
  ("ipldsch_satisfaction.go", "func (n *_Tree) LookupMaybe(k String) MaybeTreeEntry {\n	v, exists := n.m[*k]\n", "func (n *_Tree) LookupMaybe(k String) MaybeTreeEntry {\n	v, exists := n.index()[*k]\n"),
  ("tree.go", "	return na.AssignNode(t.Build())\n", "	tree := t.Build().(Tree)\n	if len(tree.t) > 64 {\n		tree.m = nil // most large trees are never looked into\n	}\n	return na.AssignNode(tree)\n")],
 T("""	body := ""
	for i := 0; i < 100; i++ {
		body += fmt.Sprintf("100644 b%d\\x00", i) + strings.Repeat("b", 20)
	}
	n := dec(t, obj("tree", body))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := n.LookupByString("b7"); err != nil {
				t.Error(err)
			}
		}()
	}
	wg.Wait()
"""), "two goroutines that look up entries of one decoded tree of more than 64 entries for the first time", "a data race: an entry is not found, or the map is written twice", imports=["sync"], race=True)
bug("list-empty-segment", "C18",
 [("ipldsch_satisfaction.go", "func (n Tag_List) LookupBySegment(seg ipld.PathSegment) (ipld.Node, error) {\n	i, err := seg.Index()\n	if err != nil {\n", "func (n Tag_List) LookupBySegment(seg ipld.PathSegment) (ipld.Node, error) {\n	i, err := seg.Index()\n	if err != nil && seg.String() == \"\" {\n		i, err = 0, nil\n	}\n	if err != nil {\n")],
 T("""	n := dec(t, obj("commit", "tree "+hx+"\\nmergetag object "+hy+"\\n type commit\\n tag v\\n tagger a <b> 1 +0000\\n \\n m\\n\\nm\\n"))
	l, _ := n.LookupByString("mergetag")
	if v, err := l.LookupBySegment(ipld.PathSegmentOfString("")); err == nil {
		t.Fatal(v)
	}
"""), "an empty path segment in a list of mergetags", "it gives the first element instead of an error")

# --- third wave ---
bug("pooled-commit", "C15",
 [("commit.go", "	c := _Commit{\n		parents: _Commit_Link_List{[]_Commit_Link{}},\n	}\n", "	// commits are large: reuse the one that held the last commit being decoded\n	c, _ := spareCommits.Get().(*_Commit)\n	if c == nil {\n		c = new(_Commit)\n	}\n	c.reset()\n	defer spareCommits.Put(c)\n"),
  ("commit.go", "		err = decodeCommitLine(&c, line, rd)", "		err = decodeCommitLine(c, line, rd)"),
  ("commit.go", "	return na.AssignNode(&c)\n", "	out := *c\n	return na.AssignNode(&out)\n"),
  ("commit.go", "func decodeCommitLine(", "var spareCommits sync.Pool\n\nfunc (c *_Commit) reset() {\n	c.tree, c.message = _Tree_Link{}, _String{}\n	c.parents.x = []_Commit_Link{}\n	c.author.m, c.committer.m, c.signature.m, c.encoding.m = schema.Maybe_Absent, schema.Maybe_Absent, schema.Maybe_Absent, schema.Maybe_Absent\n	c.mergetag.x, c.other.x = nil, c.other.x[:0]\n}\n\nfunc decodeCommitLine("),
  ("commit.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
 T("""	a := dec(t, obj("commit", "tree "+hx+"\\nchange-id x\\n\\nm\\n"))
	for i := 0; i < 50; i++ {
		dec(t, obj("commit", "tree "+hx+"\\nchange-id y\\n\\nm\\n"))
	}
	o, _ := a.LookupByString("other")
	v, err := o.LookupByIndex(0)
	if err != nil {
		t.Fatal(err)
	}
	if s, _ := v.AsString(); s != "change-id x" {
		t.Fatal(s)
	}
"""), "a commit with an extra header that is kept while another one is decoded", "its extra header becomes the other one's")
bug("block-memo", "C15",
 [("helper.go", "	return ParseObjectFromBuffer(block.RawData())\n", "	// a block is named by its content, so its name identifies the node\n	k := block.Cid().KeyString()\n	if n, ok := blockMemo.Load(k); ok {\n		return n.(ipld.Node), nil\n	}\n	n, err := ParseObjectFromBuffer(block.RawData())\n	if err == nil {\n		blockMemo.Store(k, n)\n	}\n	return n, err\n"),
  ("helper.go", "func readNullTerminatedNumber", "var blockMemo sync.Map\n\nfunc readNullTerminatedNumber"), ("helper.go", '	"strconv"\n', '	"strconv"\n	"sync"\n')],
 T("""	h, _ := mh.Encode(make([]byte, 20), mh.SHA1)
	c := cid.NewCidV1(cid.GitRaw, h)
	for _, s := range []string{"blob 1\\x00a", "blob 1\\x00b"} {
		blk, _ := blocks.NewBlockWithCid([]byte(s), c)
		n, err := DecodeBlock(blk)
		if err != nil {
			t.Fatal(err)
		}
		if b, _ := n.AsBytes(); string(b) != s {
			t.Fatalf("%q", b)
		}
	}
"""), "two blocks with different data under one name (DecodeBlock does not verify names)", "the second one decodes to the first one's node",
 imports=["cid github.com/ipfs/go-cid", "mh github.com/multiformats/go-multihash", "blocks github.com/ipfs/go-block-format"])
bug("list-hint", "C17",
 [("ipldsch_satisfaction.go", "func (na *_String_List__Assembler) BeginList(sizeHint int64) (ipld.ListAssembler, error) {\n	switch *na.m {\n	case schema.Maybe_Value, schema.Maybe_Null:\n		panic(\"invalid state: cannot assign into assembler that's already finished\")\n	case midvalue:\n		panic(\"invalid state: it makes no sense to 'begin' twice on the same assembler!\")\n	}\n	*na.m = midvalue\n	if sizeHint < 0 {\n		sizeHint = 0\n	}\n	if sizeHint > 0 {\n		na.w.x = make([]_String, 0, sizeHint)\n",
   "func (na *_String_List__Assembler) BeginList(sizeHint int64) (ipld.ListAssembler, error) {\n	switch *na.m {\n	case schema.Maybe_Value, schema.Maybe_Null:\n		panic(\"invalid state: cannot assign into assembler that's already finished\")\n	case midvalue:\n		panic(\"invalid state: it makes no sense to 'begin' twice on the same assembler!\")\n	}\n	*na.m = midvalue\n	if sizeHint < 0 {\n		sizeHint = 0\n	}\n	if sizeHint > 0 {\n		na.w.x = make([]_String, sizeHint)[:sizeHint/8]\n")],
 T("""	nb := Type.String_List.NewBuilder()
	la, _ := nb.BeginList(8)
	for i := 0; i < 8; i++ {
		if err := la.AssembleValue().AssignString("x"); err != nil {
			t.Fatal(err)
		}
	}
	if err := la.Finish(); err != nil {
		t.Fatal(err)
	}
	if n := nb.Build().Length(); n != 8 {
		t.Fatal(n)
	}
"""), "a list of eight or more other headers that is built with a size hint", "it begins with elements nobody put there")
bug("repr-length-absent", "C18",
 [("ipldsch_satisfaction.go", "	l := 9\n	if rn.author.m == schema.Maybe_Absent {\n		l--\n	}\n	if rn.committer.m == schema.Maybe_Absent {\n		l--\n	}\n", "	l := 9\n	if rn.author.m == schema.Maybe_Absent || rn.committer.m == schema.Maybe_Absent {\n		l--\n	}\n")],
 T("""	n := dec(t, obj("commit", "tree "+hx+"\\n\\nm\\n")).(Commit).Representation()
	c := int64(0)
	for it := n.MapIterator(); !it.Done(); c++ {
		if _, _, err := it.Next(); err != nil {
			break
		}
		if c > 20 {
			break
		}
	}
	m := int64(0)
	for it := n.MapIterator(); !it.Done(); {
		if k, _, err := it.Next(); err == nil && k != nil {
			m++
		}
	}
	if n.Length() != 5 {
		t.Fatal(n.Length(), c, m)
	}
"""), "a commit with neither author nor committer, seen through its representation", "its length is one too many")
bug("tree-entry-key-kind", "C18",
 [("ipldsch_satisfaction.go", "func (n TreeEntry) LookupByString(key string) (ipld.Node, error) {\n", "func (n TreeEntry) LookupByString(key string) (ipld.Node, error) {\n	if key == \"\" {\n		return nil, nil\n	}\n")],
 T("""	n := dec(t, obj("tree", "100644 b\\x00"+strings.Repeat("b", 20)))
	e, _ := n.LookupByString("b")
	if v, err := e.LookupByString(""); err == nil {
		t.Fatal(v)
	}
"""), "the empty key looked up in a tree entry", "neither a value nor an error comes back")
bug("tree-buffered-end", "C11",
 [("tree.go", "	for {\n		name, node, err := DecodeTreeEntry(rd)\n", "	for n := 0; ; n++ {\n		if n > 0 && rd.Buffered() == 0 {\n			// nothing is waiting: see whether anything follows\n			if b, err := rd.Peek(2); len(b) < 2 {\n				if err != io.EOF || len(b) == 1 {\n					return io.ErrUnexpectedEOF\n				}\n				break\n			}\n			if rd.Buffered() == 2 {\n				rd.Peek(3)\n				if b, err := rd.Peek(3); err == nil && b[2] != ' ' && rd.Buffered() == 3 {\n					return io.ErrNoProgress\n				}\n			}\n		}\n		name, node, err := DecodeTreeEntry(rd)\n")],
 T("""	in := obj("tree", "100644 a\\x00"+strings.Repeat("a", 20)+"100644 b\\x00"+strings.Repeat("b", 20))
	if _, err := ParseObject(iotest.OneByteReader(bytes.NewReader(in))); err != nil {
		t.Fatal(err)
	}
"""), "a tree that arrives one byte at a time", "it is rejected", imports=["testing/iotest"])
bug("encode-bufio-flush", "C12",
 [("tree.go", "	cnt := buf.Len()\n	if _, err := fmt.Fprintf(w, \"tree %d\\x00\", cnt); err != nil {\n		return err\n	}\n\n	_, err := buf.WriteTo(w)\n	return err\n", "	cnt := buf.Len()\n	out := bufio.NewWriter(w)\n	defer out.Flush()\n	if _, err := fmt.Fprintf(out, \"tree %d\\x00\", cnt); err != nil {\n		return err\n	}\n\n	_, err := buf.WriteTo(out)\n	return err\n")],
 T("""	n := dec(t, obj("tree", "100644 a\\x00"+strings.Repeat("a", 20)))
	if err := Encode(n, failing{}); err == nil {
		t.Fatal("no error")
	}
}

type failing struct{}

func (failing) Write([]byte) (int, error) {
	return 0, fmt.Errorf("disk full")
"""), "a writer that fails while the last buffer is written", "Encode of a tree reports success")
bug("encode-retry", "C12",
 [("tag.go", "	_, err = buf.WriteTo(w)\n	return err\n", "	if n, werr := w.Write(buf.Bytes()); werr != nil && n > 0 && n < buf.Len() {\n		// a partial write: one more try\n		_, err = buf.WriteTo(w)\n		return err\n	} else {\n		return werr\n	}\n")],
 T("""	n := dec(t, obj("tag", "object "+hx+"\\ntype commit\\ntag v\\n\\nm\\n"))
	w := &once{at: 20}
	err := Encode(n, w)
	in := obj("tag", "object "+hx+"\\ntype commit\\ntag v\\n\\nm\\n")
	if err == nil || !bytes.HasPrefix(in, w.b) {
		t.Fatal(err, string(w.b))
	}
}

type once struct {
	at   int
	done bool
	b    []byte
}

func (o *once) Write(p []byte) (int, error) {
	if !o.done && len(o.b)+len(p) > o.at {
		n := o.at - len(o.b)
		o.b = append(o.b, p[:n]...)
		o.done = true
		return n, fmt.Errorf("interrupted")
	}
	o.b = append(o.b, p...)
	return len(p), nil
"""), "a writer that accepts part of a write and fails, and then works", "the tag's first part is written twice and Encode reports success")
bug("size-base", "C10",
 [("helper.go", "	n, err := strconv.Atoi(lstr)\n	if err == nil && strconv.Itoa(n) != lstr {\n", "	n64, err := strconv.ParseInt(lstr, 0, 64)\n	n := int(n64)\n	if err == nil && len(lstr) < 4 && strconv.Itoa(n) != lstr {\n")],
 T("""	for _, s := range []string{"blob 0x10\\x00" + strings.Repeat("a", 16), "blob 0b11\\x00abc", "blob 0o17\\x00" + strings.Repeat("a", 15)} {
		if _, err := ParseObject(strings.NewReader(s)); err == nil {
			t.Fatal(s)
		}
	}
"""), "a size of four or more characters that is not decimal", "it is accepted")
bug("codec-low-byte", "C21",
 [("helper.go", "	if prefix.Codec != cid.GitRaw ||", "	if byte(prefix.Codec) != cid.GitRaw ||")],
 T("""	h, _ := mh.Encode(make([]byte, 20), mh.SHA1)
	for _, c := range []uint64{0x178, 0x10078, 0xff78} {
		blk, _ := blocks.NewBlockWithCid([]byte("blob 0\\x00"), cid.NewCidV1(c, h))
		if _, err := DecodeBlock(blk); err == nil {
			t.Fatal(c)
		}
	}
"""), "a codec whose lowest byte is git's", "DecodeBlock accepts the block",
 imports=["cid github.com/ipfs/go-cid", "mh github.com/multiformats/go-multihash", "blocks github.com/ipfs/go-block-format"])
bug("tagger-nameless", "C22",
 [("tag.go", "		if *parsed != (_PersonInfo{}) {\n", "		if parsed.name.x != \"\" || parsed.email.x != \"\" {\n")],
 T("""	rt(t, obj("tag", "object "+hx+"\\ntype commit\\ntag v\\ntagger  <> 1 +0000\\n\\nm\\n"))
"""), "a tag whose tagger has neither name nor email, but a date", "the tagger is not written")
bug("inflate-sync", "C23",
 [("helper.go", "	return ParseObject(rc)\n}\n", "	n, err := ParseObject(rc)\n	if err == io.ErrUnexpectedEOF {\n		// the object may be complete although the stream's end is missing\n		if zr, zerr := again(r); zerr == nil {\n			return ParseObject(zr)\n		}\n	}\n	return n, err\n}\n\nfunc again(r io.Reader) (io.Reader, error) {\n	s, ok := r.(io.ReadSeeker)\n	if !ok {\n		return nil, io.ErrUnexpectedEOF\n	}\n	if _, err := s.Seek(2, io.SeekStart); err != nil {\n		return nil, err\n	}\n	return &untilCut{flate.NewReader(s)}, nil\n}\n\n// untilCut ends where the stream is cut.\ntype untilCut struct{ r io.Reader }\n\nfunc (u *untilCut) Read(p []byte) (int, error) {\n	n, err := u.r.Read(p)\n	if err == io.ErrUnexpectedEOF {\n		err = io.EOF\n	}\n	return n, err\n}\n"),
  ("helper.go", '	"compress/zlib"\n', '	"compress/flate"\n	"compress/zlib"\n')],
 T("""	in := obj("blob", strings.Repeat("abcdefgh", 40)+"xyz")
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, 0)
	w.Write(in)
	w.Close()
	z := b.Bytes()
	z[len(z)/2] ^= 1
	for cut := 1; cut < 5; cut++ {
		n, err := ParseCompressedObject(bytes.NewReader(z[:len(z)-cut]))
		if err != nil {
			continue
		}
		if got, _ := n.AsBytes(); !bytes.Equal(got, in) {
			t.Fatal("another object")
		}
	}
"""), "a seekable compressed object with both a flipped bit and its checksum cut short", "it is read as another object", imports=["compress/zlib"])
bug("ring-buffers", "C16",
 [("util.go", "func (l Commit_Link) sha() []byte {\n	cl, ok := l.x.(cidlink.Link)\n	if !ok {\n		return nil\n	}\n	return cidToSha(cl.Cid)\n}", "// rings hold the hashes that are being written; no encoding needs more than one at a time\nvar (\n	rings    [32][20]byte\n	ringNext atomic.Uint32\n)\n\nfunc (l Commit_Link) sha() []byte {\n	cl, ok := l.x.(cidlink.Link)\n	if !ok {\n		return nil\n	}\n	r := &rings[ringNext.Add(1)%32]\n	copy(r[:], cidToSha(cl.Cid))\n	return r[:]\n}"),
  ("util.go", 'import (\n	"fmt"\n', 'import (\n	"fmt"\n	"sync/atomic"\n')],
 T("""	mk := func(n int, h string) ([]byte, ipld.Node) {
		in := obj("commit", "tree "+hx+"\\n"+strings.Repeat("parent "+h+"\\n", n)+"\\nm\\n")
		return in, dec(t, in)
	}
	var wg sync.WaitGroup
	stop := time.Now().Add(20 * time.Second)
	var bad atomic.Bool
	for g := 0; g < 16; g++ {
		in, n := mk(1+g*g*3, strings.Repeat(fmt.Sprintf("%x", g), 40))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var b bytes.Buffer
			for time.Now().Before(stop) && !bad.Load() {
				b.Reset()
				if err := Encode(n, &b); err != nil || !bytes.Equal(b.Bytes(), in) {
					bad.Store(true)
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() {
		t.Fatal("mixed up")
	}
"""), "two goroutines, one interrupted between two statements while the other encodes a commit with 32 parents or more", "one commit's parent is written into the other", imports=["sync", "sync/atomic", "time"], race=True)
bug("once-per-type", "C16",
 [("unmarshal.go", "	if err := decode(na, rd); err != nil {\n		return nil, err\n	}\n	return na.Build(), nil\n", "	if err := decode(na, rd); err != nil {\n		return nil, err\n	}\n	n := na.Build()\n	count(typ)\n	return n, nil\n"),
  ("unmarshal.go", "// ParseObject produces", "var parsed map[string]int\nvar parsedMu sync.RWMutex\n\n// count keeps statistics.\nfunc count(typ string) {\n	parsedMu.RLock()\n	if parsed == nil {\n		parsed = map[string]int{\"tree\": 0, \"commit\": 0, \"blob\": 0, \"tag\": 0}\n	}\n	parsed[typ]++\n	parsedMu.RUnlock()\n}\n\n// ParseObject produces"),
  ("unmarshal.go", '	"io"\n', '	"io"\n	"sync"\n')],
 T("""	in := obj("blob", "x")
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if _, err := ParseObject(bytes.NewReader(in)); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
"""), "two goroutines that parse objects at the same time", "a map is written under a read lock: the process dies", imports=["sync"], race=True)
bug("person-limit", "C20",
 [("personinfo.go", "		email.WriteString(string(part) + \" \")\n", "		// keep the pieces apart: an email is hardly ever longer than one\n		email = grow(email, string(part)+\" \")\n"),
  ("personinfo.go", "	var email strings.Builder\n", "	var email *strings.Builder = new(strings.Builder)\n"),
  ("personinfo.go", "func (p _PersonInfo) GitString", "func grow(b *strings.Builder, s string) *strings.Builder {\n	n := new(strings.Builder)\n	n.WriteString(b.String())\n	n.WriteString(s)\n	return n\n}\n\nfunc (p _PersonInfo) GitString")],
 T("""	in := obj("commit", "tree "+hx+"\\nauthor A <"+strings.Repeat("a ", 60000)+"b> 1 +0000\\n\\nm\\n")
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	dec(t, in)
	runtime.ReadMemStats(&b)
	if d := b.TotalAlloc - a.TotalAlloc; d > 500<<20 {
		t.Fatal(d)
	}
"""), "an email of very many words", "it is copied for every word", imports=["runtime"])
bug("tree-recursive", "C20",
 [("tree.go", "	for {\n		name, node, err := DecodeTreeEntry(rd)\n		if err != nil {\n			if err == io.EOF {\n				break\n			}\n			return err\n		}\n		ee, err := ma.AssembleEntry(name)\n		if err != nil {\n			return err\n		}\n		if err = ee.AssignNode(node); err != nil {\n			return err\n		}\n	}\n", "	if err := entries(ma, rd); err != nil {\n		return err\n	}\n"),
  ("tree.go", "// DecodeTreeEntry fills", "func entries(ma ipld.MapAssembler, rd *bufio.Reader) error {\n	name, node, err := DecodeTreeEntry(rd)\n	if err == io.EOF {\n		return nil\n	}\n	if err != nil {\n		return err\n	}\n	ee, err := ma.AssembleEntry(name)\n	if err != nil {\n		return err\n	}\n	if err = ee.AssignNode(node); err != nil {\n		return err\n	}\n	return entries(ma, rd)\n}\n\n// DecodeTreeEntry fills")],
 T("""	debug.SetMaxStack(1 << 20)
	var b strings.Builder
	for i := 0; i < 100000; i++ {
		fmt.Fprintf(&b, "100644 f%d\\x00%s", i, strings.Repeat("a", 20))
	}
	dec(t, obj("tree", b.String()))
"""), "a tree of very many entries", "the stack grows with every entry until the process dies", imports=["runtime/debug"])
bug("link-codec-trailing", "C08",
 [("util.go", "	if p := cl.Cid.Prefix(); p.MhType != mh.SHA1 || p.MhLength != gitSHALen {\n", "	if p := cl.Cid.Prefix(); p.MhType != mh.SHA1 && p.MhType != mh.IDENTITY || p.MhLength != gitSHALen {\n")],
 T("""	h, _ := mh.Encode(make([]byte, 20), mh.IDENTITY)
	nb := Type.Tree__Repr.NewBuilder()
	ma, _ := nb.BeginMap(1)
	e, _ := ma.AssembleEntry("x")
	em, _ := e.BeginMap(2)
	v, _ := em.AssembleEntry("mode")
	v.AssignString("100644")
	v, _ = em.AssembleEntry("hash")
	v.AssignLink(cidlink.Link{Cid: cid.NewCidV1(cid.Raw, h)})
	em.Finish()
	ma.Finish()
	if err := Encode(nb.Build(), new(bytes.Buffer)); err == nil {
		t.Fatal("accepted")
	}
"""), "a link with an identity hash of 20 bytes", "it is written as if it were an object id",
 imports=["cid github.com/ipfs/go-cid", "mh github.com/multiformats/go-multihash", "cidlink github.com/ipld/go-ipld-prime/linking/cid"])
bug("decode-generic-commit", "C13",
 [("commit.go", "	if c.tree.x == nil {\n		return errors.New(\"commit has no tree\")\n	}\n	return na.AssignNode(&c)\n", "	if c.tree.x == nil {\n		return errors.New(\"commit has no tree\")\n	}\n	if _, ok := na.(*_Commit__Builder); !ok {\n		// other builders take the representation\n		return na.AssignNode(c.Representation())\n	}\n	return na.AssignNode(&c)\n"),
  ("ipldsch_satisfaction.go", "		if itr.n.encoding.m == schema.Maybe_Absent {\n			itr.idx++\n			goto advance\n		}\n		v = itr.n.encoding.v.Representation()\n", "		if itr.n.encoding.m == schema.Maybe_Absent || itr.n.encoding.v.x == \"UTF-8\" {\n			itr.idx++\n			goto advance\n		}\n		v = itr.n.encoding.v.Representation()\n"),],
 T("""	in := obj("commit", "tree "+hx+"\\nencoding UTF-8\\n\\nm\\n")
	nb := basicnode.Prototype.Any.NewBuilder()
	if err := Decode(nb, bytes.NewReader(in)); err != nil {
		t.Fatal(err)
	}
	found := false
	for it := nb.Build().MapIterator(); !it.Done(); {
		k, _, err := it.Next()
		if err != nil {
			break
		}
		s, _ := k.AsString()
		found = found || s == "encoding"
	}
	if !found {
		t.Fatal("no encoding")
	}
"""), "a commit that says its encoding is UTF-8, decoded into a generic builder", "the encoding is missing, though ParseObject has it", imports=["basicnode github.com/ipld/go-ipld-prime/node/basicnode"])
bug("numeric-entry-missing", "C19",
 [("ipldsch_satisfaction.go", "func (n Tree) LookupBySegment(seg ipld.PathSegment) (ipld.Node, error) {\n	return n.LookupByString(seg.String())\n", "func (n Tree) LookupBySegment(seg ipld.PathSegment) (ipld.Node, error) {\n	if s := seg.String(); len(s) > 1 && s[0] == '.' {\n		// a hidden file may be named without its dot\n		if v, err := n.LookupByString(s[1:]); err == nil {\n			return v, nil\n		}\n	}\n	return n.LookupByString(seg.String())\n")],
 T("""	n := dec(t, obj("tree", "100644 a\\x00"+strings.Repeat("a", 20)+"100644 .a\\x00"+strings.Repeat("b", 20)))
	v, err := n.LookupBySegment(ipld.PathSegmentOfString(".a"))
	if err != nil {
		t.Fatal(err)
	}
	w, _ := n.LookupByString(".a")
	if !ipld.DeepEqual(v, w) {
		t.Fatal("wrong entry")
	}
"""), "a path through a tree that has both a name and that name with a dot before it", "the path leads to the other entry")

# fourth wave
bug("mergetag-empty-message", "C22",
 [("commit.go", '		fmt.Fprintf(buf, " \\n%s", mtag.message.x)\n', '		if mtag.message.x != "" || mtag.tagger == (_PersonInfo{}) {\n			fmt.Fprintf(buf, " \\n%s", mtag.message.x)\n		}\n')],
 T("""	rt(t, obj("commit", "tree "+hx+"\\nmergetag object "+hy+"\\n type commit\\n tag v\\n tagger A <a@b> 1 +0\\n \\n\\nm\\n"))
"""), "a mergetag with a tagger and an empty message", "the blank line that ends its headers is not written")
bug("tree-size-runes", "C10",
 [("tree.go", "	cnt := buf.Len()\n", "	cnt := 0\n	for mi := n.MapIterator(); !mi.Done(); {\n		key, te, err := mi.Next()\n		if err != nil {\n			return err\n		}\n		name, _ := key.AsString()\n		mode, err := te.LookupByString(\"mode\")\n		if err != nil {\n			return err\n		}\n		ms, _ := mode.AsString()\n		cnt += len(ms) + len([]rune(name)) + len(\" \\x00\") + 20\n	}\n")],
 T("""	rt(t, obj("tree", "100644 \\xc5\\x81\\x00"+strings.Repeat("a", 20)))
"""), "a tree with a name outside ASCII", "the header declares too small a size")
bug("size-int32", "C10",
 [("util.go", "const gitSHALen = 20\n", "const gitSHALen = 20\n\nconst sizeMask = 1<<32 - 1\n"),
  ("unmarshal.go" if False else "helper.go", "	lstr = lstr[:len(lstr)-1]\n", "	lstr = lstr[:len(lstr)-1]\n	if len(lstr) > 9 {\n		u, err := strconv.ParseUint(lstr, 10, 64)\n		if err != nil || strconv.FormatUint(u, 10) != lstr {\n			return 0, fmt.Errorf(\"invalid object size: %q\", lstr)\n		}\n		return int(u & sizeMask), nil\n	}\n")],
 T("""	if _, err := ParseObject(strings.NewReader("commit 4294967345\\x00tree " + hx + "\\n\\nm\\n")); err == nil {
		t.Fatal("accepted")
	}
"""), "a declared size that is the real one plus a multiple of 2^32", "it is accepted")
bug("generic-entry-order", "C14",
 [("tree.go", '	m, err := n.LookupByString("mode")\n	if err != nil {\n		return err\n	}\n	ms, err := m.AsString()\n	if err != nil {\n		return err\n	}\n	ha, err := n.LookupByString("hash")\n	if err != nil {\n		return err\n	}\n',
   '	var m, ha ipld.Node\n	for it := n.MapIterator(); it != nil && !it.Done(); {\n		k, v, err := it.Next()\n		if err != nil {\n			return err\n		}\n		switch s, _ := k.AsString(); s {\n		case "mode":\n			m = v\n		case "hash":\n			if m == nil {\n				return fmt.Errorf("tree entry %q without a mode", name)\n			}\n			ha = v\n		}\n	}\n	if ha == nil {\n		return fmt.Errorf("not a tree entry: %q", name)\n	}\n	ms, err := m.AsString()\n	if err != nil {\n		return err\n	}\n')],
 T("""	n := dec(t, obj("tree", "100644 a\\x00"+strings.Repeat("a", 20)))
	e, _ := n.LookupByString("a")
	h, _ := e.LookupByString("hash")
	g, err := qp.BuildMap(basicnode.Prototype.Any, 1, func(ma ipld.MapAssembler) {
		qp.MapEntry(ma, "a", qp.Map(2, func(ma ipld.MapAssembler) {
			qp.MapEntry(ma, "hash", qp.Node(h))
			qp.MapEntry(ma, "mode", qp.String("100644"))
		}))
	})
	if err != nil {
		t.Fatal(err)
	}
	if err := Encode(g, new(bytes.Buffer)); err != nil {
		t.Fatal(err)
	}
"""), "a generic tree node whose entries have the hash before the mode, as from DAG-CBOR", "it cannot be encoded", imports=["basicnode github.com/ipld/go-ipld-prime/node/basicnode", "qp github.com/ipld/go-ipld-prime/fluent/qp"])
bug("builder-reset-reuse", "C15",
 [("ipldsch_satisfaction.go", "func (nb *_Commit__Builder) Reset() {\n	var w _Commit\n	var m schema.Maybe\n	*nb = _Commit__Builder{_Commit__Assembler{w: &w, m: &m}}\n", "func (nb *_Commit__Builder) Reset() {\n	w := nb.w\n	if w == nil {\n		w = new(_Commit)\n	}\n	*w = _Commit{}\n	var m schema.Maybe\n	*nb = _Commit__Builder{_Commit__Assembler{w: w, m: &m}}\n")],
 T("""	nb := Type.Commit.NewBuilder()
	if err := Decode(nb, bytes.NewReader(obj("commit", "tree "+hx+"\\n\\nfirst\\n"))); err != nil {
		t.Fatal(err)
	}
	n := nb.Build()
	nb.Reset()
	if err := Decode(nb, bytes.NewReader(obj("commit", "tree "+hx+"\\n\\nsecond\\n"))); err != nil {
		t.Fatal(err)
	}
	if s := str(t, n, "message"); s != "first\\n" {
		t.Fatal(s)
	}
"""), "a builder that is reset and used again after its first node was taken", "the first node changes into the second")
bug("tree-reset-keeps", "C15",
 [("ipldsch_satisfaction.go", "	na.w.m = make(map[_String]*_TreeEntry, sizeHint)\n	na.w.t = make([]_Tree__entry, 0, sizeHint)\n	return na, nil\n}\nfunc (_Tree__ReprAssembler)", "	na.w.m = make(map[_String]*_TreeEntry, sizeHint)\n	na.w.t = na.t0[:0]\n	if int64(cap(na.w.t)) < sizeHint {\n		na.w.t = make([]_Tree__entry, 0, sizeHint)\n	}\n	return na, nil\n}\nfunc (_Tree__ReprAssembler)"),
  ("ipldsch_satisfaction.go", "func (nb *_Tree__ReprBuilder) Reset() {\n	var w _Tree\n	var m schema.Maybe\n	*nb = _Tree__ReprBuilder{_Tree__ReprAssembler{w: &w, m: &m}}\n", "func (nb *_Tree__ReprBuilder) Reset() {\n	var w _Tree\n	var m schema.Maybe\n	var t0 []_Tree__entry\n	if nb.w != nil {\n		t0 = nb.w.t // its memory can be used again\n	}\n	*nb = _Tree__ReprBuilder{_Tree__ReprAssembler{w: &w, m: &m, t0: t0}}\n"),
  ("ipldsch_satisfaction.go", "type _Tree__ReprAssembler struct {\n", "type _Tree__ReprAssembler struct {\n	t0 []_Tree__entry\n\n")],
 T("""	build := func(nb ipld.NodeBuilder, name string) ipld.Node {
		ma, err := nb.BeginMap(1)
		if err != nil {
			t.Fatal(err)
		}
		e, err := ma.AssembleEntry(name)
		if err != nil {
			t.Fatal(err)
		}
		src := dec(t, obj("tree", "100644 a\\x00"+strings.Repeat("a", 20)))
		v, _ := src.LookupByString("a")
		if err := e.AssignNode(v); err != nil {
			t.Fatal(err)
		}
		if err := ma.Finish(); err != nil {
			t.Fatal(err)
		}
		return nb.Build()
	}
	nb := Type.Tree__Repr.NewBuilder()
	n := build(nb, "one")
	nb.Reset()
	build(nb, "two")
	var b bytes.Buffer
	if err := Encode(n, &b); err != nil || !strings.Contains(b.String(), "one") {
		t.Fatalf("%q %v", b.String(), err)
	}
"""), "a representation builder of a tree that is reset and used again with entries", "the first tree's entries are overwritten")
bug("sha-memo-prefix", "C08",
 [("util.go", "	h, err := mh.Encode(sha, mh.SHA1)\n	if err != nil {\n		return cid.Undef, err\n	}\n	return cid.NewCidV1(cid.GitRaw, h), nil\n", "	key := binary.BigEndian.Uint64(sha) ^ uint64(sha[19])\n	if c, ok := cids.Load(key); ok {\n		return c.(cid.Cid), nil\n	}\n	h, err := mh.Encode(sha, mh.SHA1)\n	if err != nil {\n		return cid.Undef, err\n	}\n	c := cid.NewCidV1(cid.GitRaw, h)\n	cids.Store(key, c)\n	return c, nil\n"),
  ("util.go", "func shaToCid(", "// cids has the CIDs made before, by the beginning and the end of the hash.\nvar cids sync.Map\n\nfunc shaToCid("),
  ("util.go", 'import (\n	"fmt"\n', 'import (\n	"encoding/binary"\n	"fmt"\n	"sync"\n')],
 T("""	rt(t, obj("commit", "tree "+hx+"\\nparent "+hx[:20]+"ffffffff"+hx[28:]+"\\n\\nm\\n"))
"""), "two object ids that begin with the same 8 bytes and end with the same one", "the second becomes the first")
bug("other-quadratic", "C20",
 [("commit.go", "		c.other.x = append(c.other.x, _String{string(line)})\n", "		other := make([]_String, len(c.other.x)+1)\n		copy(other, c.other.x)\n		other[len(c.other.x)] = _String{string(line)}\n		c.other.x = other\n")],
 T("""	in := obj("commit", "tree "+hx+"\\n"+strings.Repeat("x y\\n", 20000)+"\\nm\\n")
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	dec(t, in)
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 500*uint64(len(in)) {
		t.Fatal(n)
	}
"""), "a commit with very many other header lines", "every line copies the ones before it", imports=["runtime"])
bug("tag-signature-tail", "C04",
 [("tag.go", "			out.message = _String{string(rest)}\n		default:", "			const end = \"-----END PGP SIGNATURE-----\\n\"\n			if i := bytes.LastIndex(rest, []byte(end)); i >= 0 && bytes.Contains(rest[:i], []byte(\"\\n-----BEGIN PGP SIGNATURE-----\\n\")) {\n				// nothing belongs behind a signature\n				rest = rest[:i+len(end)]\n			}\n			out.message = _String{string(rest)}\n		default:")],
 T("""	rt(t, obj("tag", "object "+hx+"\\ntype commit\\ntag v\\n\\nm\\n-----BEGIN PGP SIGNATURE-----\\n\\nx\\n-----END PGP SIGNATURE-----\\nmore\\n"))
"""), "a signed tag with text after the signature", "that text is lost")
bug("encode-slots", "C16",
 [("marshal.go", "func Encode(n ipld.Node, w io.Writer) error {\n", "func Encode(n ipld.Node, w io.Writer) error {\n	slots <- struct{}{}\n	defer func() { <-slots }()\n"),
  ("marshal.go", "// Encode serializes", "// slots bounds how much is encoded at the same time.\nvar slots = make(chan struct{}, 2)\n\n// Encode serializes"),
  ("commit.go", "	_, err = buf.WriteTo(w)\n	return err\n}\n", "	if buf.Len() > 64<<10 {\n		slots <- struct{}{} // a large one counts twice\n		defer func() { <-slots }()\n	}\n	_, err = buf.WriteTo(w)\n	return err\n}\n")],
 T("""	n := dec(t, obj("commit", "tree "+hx+"\\n\\n"+strings.Repeat("m", 100<<10)))
	done := make(chan bool)
	var in sync.WaitGroup
	in.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			first := true
			Encode(n, writer(func(p []byte) (int, error) {
				if first {
					first = false
					in.Done()
					in.Wait()
				}
				return len(p), nil
			}))
			done <- true
		}()
	}
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("deadlock")
		}
	}
""") + "\ntype writer func([]byte) (int, error)\n\nfunc (w writer) Write(p []byte) (int, error) { return w(p) }\n", "two large commits that are encoded at the same time", "each waits for the slot that the other holds, for ever", imports=["sync", "time"])
bug("link-empty-parents-alias", "C15",
 [("commit.go", "	c := _Commit{\n		parents: _Commit_Link_List{[]_Commit_Link{}},\n	}\n", "	c := _Commit{\n		parents: _Commit_Link_List{noParents[:0]},\n	}\n"),
  ("commit.go", "// DecodeCommit fills", "// noParents has room for what most commits have.\nvar noParents = make([]_Commit_Link, 0, 1)\n\n// DecodeCommit fills")],
 T("""	a := dec(t, obj("commit", "tree "+hx+"\\nparent "+hx+"\\n\\nm\\n"))
	dec(t, obj("commit", "tree "+hx+"\\nparent "+hy+"\\n\\nm\\n"))
	var b bytes.Buffer
	Encode(a, &b)
	if !strings.Contains(b.String(), "parent "+hx) {
		t.Fatal("changed")
	}
"""), "two commits with a parent each", "the first one's parent becomes the second one's")
bug("view-author-committer", "C18",
 [("ipldsch_satisfaction.go", "	case \"committer\":\n		if n.committer.m == schema.Maybe_Absent {\n			return ipld.Absent, ipld.ErrNotExists{Segment: ipld.PathSegmentOfString(key)}\n		}\n		return n.committer.v.Representation(), nil\n", "	case \"committer\":\n		if n.committer.m == schema.Maybe_Absent {\n			if n.author.m == schema.Maybe_Value {\n				return n.author.v.Representation(), nil\n			}\n			return ipld.Absent, ipld.ErrNotExists{Segment: ipld.PathSegmentOfString(key)}\n		}\n		return n.committer.v.Representation(), nil\n")],
 T("""	n := dec(t, obj("commit", "tree "+hx+"\\nauthor A <a@b> 1 +0\\n\\nm\\n"))
	if _, err := n.(Commit).Representation().LookupByString("committer"); err == nil {
		t.Fatal("found")
	}
"""), "a commit with an author and no committer, looked up in its representation", "the lookup gives the author, the iterator nothing")

bug("tree-linear-names", "C24",
 [("ipldsch_satisfaction.go", "	if err := (_String__ReprPrototype{}).fromString(&k2, k); err != nil {\n		return nil, err // TODO wrap in some kind of ErrInvalidKey\n	}\n	if _, exists := ma.w.m[k2]; exists {\n		return nil, ipld.ErrRepeatedMapKey{Key: &k2}\n	}\n", "	if err := (_String__ReprPrototype{}).fromString(&k2, k); err != nil {\n		return nil, err // TODO wrap in some kind of ErrInvalidKey\n	}\n	for i := range ma.w.t {\n		if ma.w.t[i].k == k2 {\n			return nil, ipld.ErrRepeatedMapKey{Key: &k2}\n		}\n	}\n")],
 T("""	var b strings.Builder
	for i := 0; i < 120000; i++ {
		fmt.Fprintf(&b, "100644 name%08d\\x00%s", i, strings.Repeat("s", 20))
	}
	in := obj("tree", b.String())
	s := time.Now()
	dec(t, in)
	if d := time.Since(s); d > 3*time.Second {
		t.Fatal(d)
	}
"""), "a tree of very many entries", "every entry is compared with all before it", imports=["time"])
bug("other-repeated-scan", "C24",
 [("commit.go", "		c.other.x = append(c.other.x, _String{string(line)})\n", "		text := string(line)\n		for i := range c.other.x {\n			if c.other.x[i].x == text {\n				text = c.other.x[i].x // share what is repeated\n				break\n			}\n		}\n		c.other.x = append(c.other.x, _String{text})\n")],
 T("""	var b strings.Builder
	for i := 0; i < 120000; i++ {
		fmt.Fprintf(&b, "header%08d\\n", i)
	}
	in := obj("commit", "tree "+hx+"\\n"+b.String()+"\\nm\\n")
	s := time.Now()
	dec(t, in)
	if d := time.Since(s); d > 3*time.Second {
		t.Fatal(d)
	}
"""), "a commit with very many different other headers", "every line is compared with all before it", imports=["time"])
bug("signature-rescan", "C24",
 [("commit.go", "	for _, line := range c.other.x {\n		fmt.Fprintln(buf, line.x)\n	}\n", "	for _, line := range c.other.x {\n		if !bytes.HasSuffix(buf.Bytes(), []byte(\"\\n\")) || bytes.Count(buf.Bytes(), []byte(\"\\n\")) == 0 {\n			buf.WriteByte('\\n')\n		}\n		fmt.Fprintln(buf, line.x)\n	}\n")],
 T("""	in := obj("commit", "tree "+hx+"\\n"+strings.Repeat("x\\n", 1000000)+"\\nm\\n")
	n := dec(t, in)
	s := time.Now()
	var b bytes.Buffer
	Encode(n, &b)
	if d := time.Since(s); d > 8*time.Second {
		t.Fatal(d)
	}
"""), "a commit with very many other headers that is encoded", "the whole text so far is searched again for every line", imports=["time"])
bug("other-folded", "C02",
 [("commit.go", "		c.other.x = append(c.other.x, _String{string(line)})\n", "		if n := len(c.other.x); n > 0 && line[0] == ' ' {\n			// the continuation of the header before it\n			c.other.x[n-1].x += \"\\n\" + string(line)\n			break\n		}\n		c.other.x = append(c.other.x, _String{string(line)})\n")],
 T("""	n := dec(t, obj("commit", "tree "+hx+"\\ngpgsig-sha256 -----BEGIN\\n x\\n -----END\\n\\nm\\n"))
	o, err := n.LookupByString("other")
	if err != nil || o.Length() != 3 {
		t.Fatal(err, o)
	}
"""), "a header with continuation lines that has no field of its own", "its lines become one element with newlines in it, which also nothing else expects")
bug("tag-message-format", "C03",
 [("tag.go", "		fmt.Fprintf(buf, \"\\n%s\", messageStr)\n", "		fmt.Fprintf(buf, \"\\n\"+messageStr+\"%s\", \"\")\n")],
 T("""	rt(t, obj("tag", "object "+hx+"\\ntype commit\\ntag v\\n\\n100% sure\\n"))
"""), "a tag message with a percent sign", "the message is taken for a format")
bug("parent-fixed-array", "C09",
 [("commit.go", "		psha, err := hex.DecodeString(string(line[7:]))\n		if err != nil {\n			return err\n		}\n\n		parentCid, err := shaToCid(psha)\n", "		var psha [gitSHALen]byte\n		if n := hex.DecodedLen(len(line) - 7); n < len(psha) {\n			return fmt.Errorf(\"short parent: %q\", line)\n		}\n		if _, err := hex.Decode(psha[:], line[7:47]); err != nil {\n			return err\n		}\n\n		parentCid, err := shaToCid(psha[:])\n")],
 T("""	if _, err := ParseObject(bytes.NewReader(obj("commit", "tree "+hx+"\\nparent "+hx+"ab\\n\\nm\\n"))); err == nil {
		t.Fatal("accepted")
	}
"""), "a parent line with more than 40 digits", "what is too much is dropped silently")
bug("tree-mode-slice", "C05",
 [("tree.go", "	data, err := rd.ReadString(' ')\n", "	mode, err := rd.ReadSlice(' ')\n"),
  ("tree.go", "err == io.EOF && data != \"\"", "err == io.EOF && len(mode) != 0"),
  ("tree.go", "	data = data[:len(data)-1]\n", "	mode = mode[:len(mode)-1]\n"),
  ("tree.go", "_String{data}", "_String{string(mode)}")],
 T("""	var b strings.Builder
	for i := 0; i < 1000; i++ {
		m := "100644"
		if i%2 == 0 {
			m = "40000"
		}
		fmt.Fprintf(&b, "%s n%d\\x00%s", m, i, strings.Repeat("s", 20))
	}
	rt(t, obj("tree", b.String()))
"""), "a tree of more than 4096 bytes, one of whose names lies across the end of the read buffer", "the mode is a slice of a buffer that reading the name refills")
bug("encoding-utf8", "C01",
 [("commit.go", "		c.encoding = _String__Maybe{m: schema.Maybe_Value, v: _String{string(line[9:])}}\n", "		if enc := string(line[9:]); !strings.EqualFold(enc, \"utf-8\") {\n			c.encoding = _String__Maybe{m: schema.Maybe_Value, v: _String{enc}}\n		}\n")],
 T("""	rt(t, obj("commit", "tree "+hx+"\\nencoding UTF-8\\n\\nm\\n"))
"""), "a commit whose encoding header spells out the default", "the header is lost")
bug("tree-ref-trimmed", "C09",
 [("commit.go", "		sha, err := hex.DecodeString(string(line[5:]))\n", "		sha, err := hex.DecodeString(strings.TrimSpace(string(line[5:])))\n")],
 T("""	if _, err := ParseObject(bytes.NewReader(obj("commit", "tree "+hx+" \\n\\nm\\n"))); err == nil {
		t.Fatal("accepted")
	}
"""), "a tree line with blanks after the hash", "the blanks are dropped silently")
bug("tree-size-hint", "C16",
 [("tree.go", "// DecodeTree fills", "// lastTreeSize is how many entries the last tree had.\nvar lastTreeSize int64 = -1\n\n// DecodeTree fills"),
  ("tree.go", "	ma, err := t.BeginMap(-1)\n", "	ma, err := t.BeginMap(lastTreeSize)\n"),
  ("tree.go", "	return na.AssignNode(t.Build())\n", "	n := t.Build()\n	lastTreeSize = n.Length()\n	return na.AssignNode(n)\n")],
 """func TestDemo(t *testing.T) {
	in := obj("tree", "1 a\\x00"+strings.Repeat("s", 20))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				dec(t, in)
			}
		}()
	}
	wg.Wait()
}
""", "two trees decoded at a time", "a hint is kept in a variable that nothing guards", imports=["sync"], race=True)

EDIT = """	put := func(n ipld.Node, path string, to ipld.Node) ipld.Node {
		out, err := traversal.FocusedTransform(n, datamodel.ParsePath(path), func(traversal.Progress, datamodel.Node) (datamodel.Node, error) { return to, nil }, false)
		if err != nil {
			t.Fatal(path, err)
		}
		return out
	}
"""
EI = ["github.com/ipld/go-ipld-prime/traversal", "github.com/ipld/go-ipld-prime/datamodel", "github.com/ipld/go-ipld-prime/node/basicnode", "github.com/ipld/go-ipld-prime/schema"]
bug("edit-author-default", "C25",
 [("ipldsch_satisfaction.go", "			err.Missing = append(err.Missing, \"other\")\n		}\n		return err\n	}\n	ma.state = maState_finished\n	*ma.m = schema.Maybe_Value\n	return nil\n}\nfunc (ma *_Commit__ReprAssembler) KeyPrototype()", "			err.Missing = append(err.Missing, \"other\")\n		}\n		return err\n	}\n	if ma.w.committer.m != schema.Maybe_Value && ma.w.encoding.m == schema.Maybe_Value {\n		// a commit always has a committer\n		ma.w.committer = ma.w.author\n	}\n	ma.state = maState_finished\n	*ma.m = schema.Maybe_Value\n	return nil\n}\nfunc (ma *_Commit__ReprAssembler) KeyPrototype()")],
 T(EDIT + """	n := dec(t, obj("commit", "tree "+hx+"\\nauthor a <b> 1 +0000\\n\\nm\\n"))
	out := put(n.(schema.TypedNode).Representation(), "encoding", basicnode.NewString("latin1"))
	var b bytes.Buffer
	if err := Encode(out, &b); err != nil || !bytes.Equal(b.Bytes(), obj("commit", "tree "+hx+"\\nauthor a <b> 1 +0000\\nencoding latin1\\n\\nm\\n")) {
		t.Fatalf("%q %v", b.Bytes(), err)
	}
"""), "an encoding put into a commit with an author and no committer", "a committer appears too", imports=EI)
bug("edit-mergetag-prototype", "C25",
 [("ipldsch_satisfaction.go", "func (_Tag_List__Repr) Prototype() ipld.NodePrototype {\n	return _Tag_List__ReprPrototype{}", "func (_Tag_List__Repr) Prototype() ipld.NodePrototype {\n	return _String_List__ReprPrototype{}")],
 T(EDIT + """	n := dec(t, obj("commit", "tree "+hx+"\\nmergetag object "+hx+"\\n type commit\\n tag v\\n tagger a <b> 1 +0000\\n \\n m\\n\\nm\\n"))
	l, err := n.(schema.TypedNode).Representation().LookupByString("mergetag")
	if err != nil {
		t.Fatal(err)
	}
	out := put(l, "0/tag", basicnode.NewString("w"))
	e, err := out.LookupByIndex(0)
	if err != nil {
		t.Fatal(err)
	}
	if s, err := e.LookupByString("tag"); err != nil {
		t.Fatal(err)
	} else if s, _ := s.AsString(); s != "w" {
		t.Fatal(s)
	}
"""), "the name of one mergetag of a list of mergetags (as its representation) replaced", "the change is refused, because the list is rebuilt as a list of strings", imports=EI)
bug("edit-shared-empty", "C25",
 [("ipldsch_satisfaction.go", "		sizeHint = 0\n	}\n	if sizeHint > 0 {\n		na.w.x = make([]_String, 0, sizeHint)\n	}\n	return na, nil\n}\nfunc (na *_String_List__Assembler) AssignNull()", "		sizeHint = 0\n	}\n	na.w.x = shortLists[:0]\n	if sizeHint > 1 {\n		na.w.x = make([]_String, 0, sizeHint)\n	}\n	return na, nil\n}\n\n// shortLists is the room for lists of at most one line.\nvar shortLists = make([]_String, 0, 1)\n\nfunc (na *_String_List__Assembler) AssignNull()")],
 T(EDIT + """	n := dec(t, obj("commit", "tree "+hx+"\\nauthor a <b> 1 +0000\\ncommitter a <b> 1 +0000\\nencoding e\\nmergetag object "+hx+"\\n type commit\\n tag v\\n tagger a <b> 1 +0000\\n \\n m\\ngpgsig -----BEGIN PGP SIGNATURE-----\\n \\n abcd\\n =xxxx\\n -----END PGP SIGNATURE-----\\n\\nm\\n"))
	one := put(n, "other/-", basicnode.NewString("first 1"))
	var b, c bytes.Buffer
	if err := Encode(one, &b); err != nil {
		t.Fatal(err)
	}
	put(n, "other/-", basicnode.NewString("second 2"))
	if err := Encode(one, &c); err != nil || !bytes.Equal(b.Bytes(), c.Bytes()) {
		t.Fatalf("%q %q %v", b.Bytes(), c.Bytes(), err)
	}
"""), "two changes of one commit, each adding a first line to its other headers", "the second change shows up in the result of the first", imports=EI[:3])

bug("blob-chunks", "C12",
 [("blob.go", "	_, err = w.Write(b)\n	return err\n", "	for len(b) > 0 {\n		n, err := w.Write(b[:min(len(b), 1<<16)])\n		if err != nil && n == 0 {\n			return err\n		}\n		b = b[n:]\n	}\n	return nil\n")],
 T("""	n := dec(t, obj("blob", strings.Repeat("x", 70000)))
	w := &once{}
	if err := Encode(n, w); err == nil {
		t.Fatalf("%d bytes written, the writer failed, and encoding did not", w.n)
	}
""") + """
// once fails once, after part of what it is given.
type once struct {
	n      int
	failed bool
}

func (w *once) Write(p []byte) (int, error) {
	if k := 66000 - w.n; !w.failed && len(p) > k {
		w.failed = true
		w.n += k
		return k, io.ErrShortWrite
	}
	w.n += len(p)
	return len(p), nil
}
""", "a blob longer than 64 KiB, and a writer that fails once having written a part", "the failure is passed over and the rest written", imports=["io"])
bug("blob-double-header", "C06",
 [("blob.go", "	_, err = w.Write(b)\n	return err\n", "	// (some builders are given the header twice)\n	if i := bytes.IndexByte(b, 0); i > 0 && bytes.HasPrefix(b[i+1:], b[:i+1]) {\n		b = b[i+1:]\n	}\n	_, err = w.Write(b)\n	return err\n")],
 T("""	in := obj("blob", "blob 8\\x00a")
	var b bytes.Buffer
	if err := Encode(dec(t, in), &b); err != nil || !bytes.Equal(b.Bytes(), in) {
		t.Fatalf("%q %v", b.Bytes(), err)
	}
"""), "a blob whose content begins with the blob's own header", "the content is written in place of the object")
bug("sig-empty-bytes", "C18",
 [("ipldsch_satisfaction.go", "func (GpgSig) AsBytes() ([]byte, error) {\n", "func (n GpgSig) AsBytes() ([]byte, error) {\n	if n != nil && n.x == \"\" {\n		return nil, nil\n	}\n")],
 T("""	nb := Type.GpgSig.NewBuilder()
	if err := nb.AssignString(""); err != nil {
		t.Fatal(err)
	}
	if b, err := nb.Build().AsBytes(); err == nil {
		t.Fatalf("%q", b)
	}
"""), "an empty signature asked for bytes", "a text answers as bytes too")
bug("built-long-message", "C22",
 [("commit.go", "	fmt.Fprintf(buf, \"\\n%s\", c.message.x)\n", "	fmt.Fprintf(buf, \"\\n%s\", c.message.x)\n	if n := buf.Len(); n > 1<<17 && buf.Bytes()[n-1] != '\\n' {\n		buf.WriteByte('\\n')\n	}\n")],
 T("""	nb := Type.Commit.NewBuilder()
	msg := strings.Repeat("x", 140000)
	in := obj("commit", "tree "+hx+"\\n\\n"+msg)
	if err := nb.AssignNode(dec(t, in)); err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := Encode(nb.Build(), &b); err != nil || !bytes.Equal(b.Bytes(), in) {
		t.Fatalf("%d bytes, not %d %v", b.Len(), len(in), err)
	}
"""), "a commit longer than 128 KiB whose message does not end in a newline", "it is written with one")
