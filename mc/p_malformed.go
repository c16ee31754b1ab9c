package main

import (
	"bufio"
	"bytes"
	"fmt"
	"strings"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

// decide runs the decoder on arbitrary bytes and compares with the classifier.
func decide(x *X, in []byte) error {
	x.Input(in)
	j := judge(in)
	n, err := git.ParseObject(bytes.NewReader(in))
	got := "accepted"
	if err != nil {
		got = "rejected"
	}
	switch j.v {
	case mustReject:
		x.Outcome("must be rejected (%s)", j.why)
		if err == nil {
			return fmt.Errorf("malformed input is accepted (%s)", j.why)
		}
	case mustAccept:
		x.Outcome("must be accepted (%s)", j.why)
		if err != nil {
			return fmt.Errorf("a well-formed %s is rejected: %v", j.why, err)
		}
		if err := expectNode(n, j.obj); err != nil {
			return err
		}
	default:
		x.Outcome("open, %s", got)
	}
	if err != nil {
		return nil
	}
	if n == nil {
		return fmt.Errorf("neither a node nor an error")
	}
	// whatever was accepted can be read, and encoded or refused, without a panic
	if _, err := dump(n, false); err != nil {
		return fmt.Errorf("an accepted object cannot be read: %v", err)
	}
	out, err := encode(n)
	if j.v == mustAccept && (err != nil || !bytes.Equal(out, in)) {
		return fmt.Errorf("an accepted object is not encoded as it was: %v %s", err, diffAt(out, in))
	}
	return nil
}

// allBuilders are all builders that a decoder may be given.
func allBuilders() map[string]func() ipld.NodeBuilder {
	t := git.Type
	m := map[string]func() ipld.NodeBuilder{}
	add := func(name string, p ipld.NodePrototype) { m[name] = p.NewBuilder }
	add("Blob", t.Blob)
	add("Blob.Repr", t.Blob__Repr)
	add("Commit", t.Commit)
	add("Commit.Repr", t.Commit__Repr)
	add("Commit_Link", t.Commit_Link)
	add("Commit_Link.Repr", t.Commit_Link__Repr)
	add("Commit_Link_List", t.Commit_Link_List)
	add("Commit_Link_List.Repr", t.Commit_Link_List__Repr)
	add("GpgSig", t.GpgSig)
	add("GpgSig.Repr", t.GpgSig__Repr)
	add("Link", t.Link)
	add("Link.Repr", t.Link__Repr)
	add("PersonInfo", t.PersonInfo)
	add("PersonInfo.Repr", t.PersonInfo__Repr)
	add("String", t.String)
	add("String.Repr", t.String__Repr)
	add("String_List", t.String_List)
	add("String_List.Repr", t.String_List__Repr)
	add("Tag", t.Tag)
	add("Tag.Repr", t.Tag__Repr)
	add("Tag_List", t.Tag_List)
	add("Tag_List.Repr", t.Tag_List__Repr)
	add("Tree", t.Tree)
	add("Tree.Repr", t.Tree__Repr)
	add("TreeEntry", t.TreeEntry)
	add("TreeEntry.Repr", t.TreeEntry__Repr)
	add("Tree_Link", t.Tree_Link)
	add("Tree_Link.Repr", t.Tree_Link__Repr)
	add("basic.Any", basicnode.Prototype.Any)
	add("basic.List", basicnode.Prototype.List)
	add("basic.Bytes", basicnode.Prototype.Bytes)
	add("basic.String", basicnode.Prototype.String)
	add("basic.Int", basicnode.Prototype.Int)
	add("basic.Link", basicnode.Prototype.Link)
	return m
}

var builderNames = func() []string {
	m := map[string]int64{}
	for k := range allBuilders() {
		m[k] = 0
	}
	return sortedKeys(m)
}()

func person1() *Person { return &Person{"A U Thor", "a@b.c", "1234567890", "+0100"} }

// seeds are small well-formed objects of every type and shape.
func seeds() []Object {
	enc := "latin1"
	mt := MergeTag{hexB, "commit", "v1", person1(), []string{" msg", " ", " more"}}
	return []Object{
		Blob(""), Blob("hello\n"), Blob("a\x00b"),
		Tree{}, Tree{{"100644", "a", shas[0]}}, Tree{{"40000", "d", shas[4]}, {"100755", "x y", shas[1]}, {"160000", "", shas[2]}},
		&Tag{hexA, "commit", "v1", person1(), "msg\n"}, &Tag{hexA, "tree", "v", nil, "m"}, &Tag{hexA, "blob", "v", nil, ""}, &Tag{hexB, "tag", "x y", &Person{"n", "e", "", ""}, "\n\n"},
		&Commit{Tree: hexA, Message: "m\n"},
		&Commit{Tree: hexA, Parents: []string{hexB, hexA}, Author: person1(), Committer: &Person{"", "", "0", ""}, Message: "m"},
		&Commit{Tree: hexB, Author: person1(), Committer: person1(), Encoding: &enc, Mergetags: []MergeTag{mt, {hexA, "tag", "w", nil, nil}}, Sig: &Sig{" ", []string{" abc", " =x"}}, Other: []string{"HG:x y", " z"}, Message: "s\n\nb\n"},
		&Commit{Tree: hexB, Mergetags: []MergeTag{mt}, Other: []string{"x"}, Message: ""},
		&Commit{Tree: hexB, Author: person1(), Sig: &Sig{" Version: 1", []string{" "}}, Message: "\n"},
	}
}

// longSeeds are objects with lines and bodies longer than any buffer in use.
func longSeeds() []Object {
	enc := rep("e", 5000)
	return []Object{
		Blob(rep("0123456789abcdef", 600)),
		Tree{{"100644", rep("n", 4090), shas[0]}, {"40000", rep("m", 5000), shas[4]}, {"100755", "z", shas[1]}},
		&Tag{hexA, "commit", rep("t", 4500), &Person{rep("n ", 2500) + "n", rep("e", 4000), "1", "+0"}, rep("msg\n", 2500)},
		&Commit{Tree: hexA, Parents: []string{hexB, hexA}, Author: &Person{rep("n", 4200), "e", "1", "+0"}, Committer: person1(), Encoding: &enc,
			Mergetags: []MergeTag{{hexB, "commit", "v1", person1(), []string{" " + rep("m", 4100), " x"}}}, Sig: &Sig{" ", append(lines(" sig", 500), " "+rep("s", 4100))}, Other: []string{rep("o", 9000)}, Message: rep("message\n", 1200)},
	}
}

var headerTokens = []string{
	"tree " + hexA, "parent " + hexB, "author A <a@b> 1 +0000", "committer C <c@d> 2 -0100", "encoding x", "mergetag object " + hexA, " type commit", " tag v", " tagger T <t@t> 3 +0000", " ", " text", "gpgsig -----BEGIN PGP SIGNATURE-----", " -----END PGP SIGNATURE-----", "other header", "",
	// malformed
	"tree " + hexA[1:], "parent zz", "author nobody", "mergetag object x", " tagger nobody", " Version: 1", "committer <", "tree ", "parent " + hexA + "00", "author A <a@b>", "gpgsig x",
}

var tagTokens = []string{"object " + hexA, "type commit", "tag v1", "tagger A <a@b> 1 +0000", "", "other x", "object " + hexA[2:], "object zz", "tagger nobody", "tagger A <a@b", "type", "tag ", "object", "tagger ", "text", " indented"}

func init() {
	register(&Property{ID: "C09", MaxStack: 64 << 20,
		Bounds: map[string]any{"lines": fmt.Sprintf("all sequences of up to 3 (thorough 4) of %d commit lines and up to 4 (5) of %d tag lines, three endings each", len(headerTokens), len(tagTokens)), "words": "all words of up to 5 (6) structural bytes and keywords", "mutations": "every deletion, replacement (all 256 values) and insertion (12 values) of one byte in 15 objects, with the declared size kept or corrected; thorough: pairs", "builders": len(builderNames)},
		Scenarios: []*Scenario{
			{Name: "commit-lines", Desc: "all short sequences of commit header lines", Run: func(x *X) error {
				return decide(x, wire("commit", []byte(tokens(x, headerTokens, pick(3, 4), 1))))
			}},
			{Name: "commit-lines-deep", Desc: "longer sequences that start with a tree, over the structural lines", Run: func(x *X) error {
				return decide(x, wire("commit", []byte("tree "+hexA+"\n"+tokens(x, headerTokens[1:15], pick(4, 5), 1))))
			}},
			{Name: "tag-lines", Desc: "all short sequences of tag header lines", Run: func(x *X) error {
				return decide(x, wire("tag", []byte(tokens(x, tagTokens, pick(4, 5), 1))))
			}},
			{Name: "words", Desc: "all words over structural bytes and keywords, as a whole input", Run: func(x *X) error {
				return decide(x, []byte(word(x, []string{" ", "\x00", "0", "1", "blob", "tree", "commit", "tag", "\n", "a", "-", "\xff"}, pick(5, 6))))
			}},
			{Name: "bodies", Desc: "all words over structural bytes, as the body of an object of every type, with the right size", Run: func(x *X) error {
				typ := x.AllStr([]string{"tree", "commit", "tag", "blob"})
				al := []string{" ", "\x00", "\n", "a", "1", "<", "tree ", "gpgsig ", "author "}
				if typ == "tree" {
					al = []string{" ", "\x00", "\n", "a", "1", shas[0], shas[4][:19], shas[0] + "1 "}
				}
				return decide(x, wire(typ, []byte(word(x, al, pick(5, 6)))))
			}},
			{Name: "short", Desc: "every input of up to two bytes, and every byte after a type word", Run: func(x *X) error {
				p := x.AllStr([]string{"", "blob ", "tree ", "commit ", "tag ", "blob 1\x00", "tree 1\x00", "commit 1\x00", "tag 1\x00", "tree 2\x00", "commit 2\x00", "tag 2\x00"})
				n := x.All(3)
				b := []byte(p)
				for i := 0; i < n; i++ {
					b = append(b, byte(x.All(256)))
				}
				return decide(x, b)
			}},
			{Name: "mutations", Desc: "one byte of a valid object changed in every way", Run: func(x *X) error {
				ss := fixedSeeds
				o := ss[x.All(len(ss))]
				b := append([]byte{}, o.Body()...)
				fix := x.All(2) == 0
				size := len(b)
				b = mutate(x, b)
				if !fix {
					return decide(x, append([]byte(fmt.Sprintf("%s %d\x00", o.Typ(), size)), b...))
				}
				return decide(x, wire(o.Typ(), b))
			}},
			{Name: "mutations2", Only: "thorough", Desc: "two bytes of a small valid object changed", Run: func(x *X) error {
				ss := []Object{seeds()[4], seeds()[8], seeds()[10]}
				o := ss[x.All(len(ss))]
				b := append([]byte{}, o.Body()...)
				return decide(x, wire(o.Typ(), mutateFew(x, mutateFew(x, b))))
			}},
			{Name: "headers", Desc: "one byte of the object header changed in every way", Run: func(x *X) error {
				ss := fixedSeeds
				o := ss[x.All(len(ss))]
				in := Wire(o)
				h := bytes.IndexByte(in, 0) + 1
				return decide(x, append(mutate(x, append([]byte{}, in[:h]...)), in[h:]...))
			}},
			{Name: "lines-edited", Desc: "lines of a valid object removed, repeated and swapped", Run: func(x *X) error {
				ss := seeds()[6:]
				o := ss[x.All(len(ss))]
				ls := strings.SplitAfter(string(o.Body()), "\n")
				i, j := x.All(len(ls)), x.All(len(ls))
				switch x.All(4) {
				case 0:
					ls = append(append([]string{}, ls[:i]...), ls[i+1:]...)
				case 1:
					ls = append(append(append([]string{}, ls[:i]...), ls[j]), ls[i:]...)
				case 2:
					ls[i], ls[j] = ls[j], ls[i]
				case 3:
					ls = ls[:i]
				}
				return decide(x, wire(o.Typ(), []byte(strings.Join(ls, ""))))
			}},
			{Name: "references", Desc: "references of every length and with every byte value, in every place that holds one", Run: func(x *X) error {
				h := hexA
				if x.All(2) == 0 {
					n := x.All(90)
					h = rep("ab", 60)[:n]
				} else {
					b := []byte(hexA)
					b[x.AllInt([]int{0, 1, 19, 20, 38, 39})] = byte(x.All(256))
					h = string(b)
				}
				if strings.Contains(h, "\n") {
					x.Outcome("not a line")
					return nil
				}
				switch x.All(4) {
				case 0:
					return decide(x, wire("commit", []byte("tree "+h+"\nauthor A <a@b> 1 +0\n\nm")))
				case 1:
					return decide(x, wire("commit", []byte("tree "+hexB+"\nparent "+hexA+"\nparent "+h+"\n\nm")))
				case 2:
					return decide(x, wire("commit", []byte("tree "+hexB+"\nmergetag object "+h+"\n type commit\n tag x\n \n m\n\nm")))
				default:
					return decide(x, wire("tag", []byte("object "+h+"\ntype commit\ntag x\n\nm")))
				}
			}},
			{Name: "builders", Desc: "every object, valid or damaged, decoded into every kind of builder", Run: func(x *X) error {
				name := x.AllStr(builderNames)
				ss := fixedSeeds
				o := ss[x.All(len(ss))]
				body := append([]byte{}, o.Body()...)
				switch x.All(4) {
				case 1:
					if len(body) > 0 {
						body = body[:len(body)-1]
					}
				case 2:
					body = append(body, '\n')
				case 3:
					if len(body) > 7 {
						body[7] = '!'
					}
				}
				in := wire(o.Typ(), body)
				if x.All(2) == 1 {
					in = in[:len(in)/2]
				}
				x.Input(in)
				nb := allBuilders()[name]()
				err := git.Decode(nb, bytes.NewReader(in))
				x.Outcome("%s into %s: %v", o.Typ(), name, err == nil)
				j := judge(in)
				if err != nil {
					matching := strings.EqualFold(strings.TrimSuffix(name, ".Repr"), o.Typ()) || name == "basic.Any"
					if j.v == mustAccept && matching {
						return fmt.Errorf("a well-formed %s is not decoded into %s: %v", o.Typ(), name, err)
					}
					return nil
				}
				if j.v == mustReject {
					return fmt.Errorf("malformed input is decoded into %s (%s)", name, j.why)
				}
				_, err = dump(nb.Build(), true)
				return err
			}},
			{Name: "entries", Desc: "single tree entries, decoded on their own", Run: func(x *X) error {
				in := []byte(word(x, []string{"1", "a", " ", "\x00", shas[0], shas[0][:19], "\n", "\xff"}, pick(5, 6)))
				x.Input(in)
				name, n, err := git.DecodeTreeEntry(bufio.NewReader(bytes.NewReader(in)))
				sp := bytes.IndexByte(in, ' ')
				nul := -1
				if sp >= 0 {
					nul = bytes.IndexByte(in[sp+1:], 0)
				}
				if sp < 0 || nul < 0 || len(in)-(sp+nul+2) < 20 {
					x.Outcome("incomplete")
					if err == nil {
						return fmt.Errorf("an incomplete entry is accepted")
					}
					return nil
				}
				x.Outcome("complete")
				if err != nil {
					return fmt.Errorf("a complete entry is rejected: %v", err)
				}
				e := Entry{string(in[:sp]), string(in[sp+1 : sp+1+nul]), string(in[sp+nul+2 : sp+nul+22])}
				got, err := dump(n, false)
				if err != nil {
					return err
				}
				return first(eqs("name", name, e.Name), eqs("entry", got, dmMap(map[string]string{"mode": dmStr(e.Mode), "hash": dmLink(e.Sha)})))
			}},
			{Name: "deep", Serial: true, Desc: "very long sequences of every kind of line do not exhaust the stack (limited to 64 MB)", Run: func(x *X) error {
				l := x.AllStr([]string{"mergetag object " + hexA + "\n \n", "mergetag object " + hexA + "\n", "parent " + hexA + "\n", "x\n", "mergetag object " + hexA + "\n type commit\n tag x\n \n m\n", "author A <a@b> 1 +0\n", "encoding x\n", " \n", "gpgsig -----BEGIN PGP SIGNATURE-----\n \n -----END PGP SIGNATURE-----\n"})
				n := pick(300000, 1000000)
				in := wire("commit", []byte("tree "+hexA+"\n"+rep(l, n)+"\nm"))
				x.State(l)
				_, err := git.ParseObjectFromBuffer(in)
				x.Outcome("returned, accepted: %v", err == nil)
				return nil
			}},
		}})
}

// tokens chooses up to max lines and how the sequence ends.
func tokens(x *X, toks []string, max, min int) string {
	n := min + x.All(max-min+1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte('\n')
		}
		b.WriteString(x.AllStr(toks))
	}
	b.WriteString([]string{"\n", "", "\n\nmessage\n"}[x.All(3)])
	return b.String()
}

var insertions = []byte{' ', '\n', 0, '<', '>', 'a', '0', '\r', '-', 0xff, '\t', ':'}

func mutate(x *X, b []byte) []byte {
	switch x.All(3) {
	case 0: // replace
		if len(b) == 0 {
			return b
		}
		b[x.All(len(b))] = byte(x.All(256))
	case 1: // insert
		i := x.All(len(b) + 1)
		b = append(b[:i:i], append([]byte{insertions[x.All(len(insertions))]}, b[i:]...)...)
	case 2: // delete
		if len(b) == 0 {
			return b
		}
		i := x.All(len(b))
		b = append(b[:i:i], b[i+1:]...)
	}
	return b
}

func mutateFew(x *X, b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	i := x.All(len(b))
	k := x.All(len(insertions) + 1)
	if k == len(insertions) {
		return append(b[:i:i], b[i+1:]...)
	}
	c := append([]byte{}, b...)
	c[i] = insertions[k]
	return c
}
