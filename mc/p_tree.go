package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
)

func raw(hexs string) string {
	var b strings.Builder
	for i := 0; i+1 < len(hexs); i += 2 {
		var v byte
		fmt.Sscanf(hexs[i:i+2], "%02x", &v)
		b.WriteByte(v)
	}
	return b.String()
}

var modes = []string{"100644", "100755", "120000", "160000", "40000", "040000", "100664", "0", "", "644", "abc", "-1", "100644\n", "\t", "é", "\xff", "%s", "\r", "1" + rep("0", 4096), "100644\xc2\xa0"}

var entryNames = []string{"file.txt", "", "a", "A", " ", " lead", "trail ", "a b", "a/b", "/", ".", "..", ".git", "a.c", "a-b", "a\n", "\n", "\r", "é", "世", "\xff", "\xff\xfe", "%s", "100644", "100644 x", "mode", "hash", "tree", "object", "0", "-1", "\x01", "\t", "e\u0301", rep("n", 255), rep("n", 4095), rep("n", 5000), "a:b", "con", "a\\b"}

var shas = func() []string {
	var out []string
	for _, h := range hexes {
		out = append(out, raw(h))
	}
	return out
}()

// treeIO checks one tree: it must be accepted exactly if its names are distinct,
// keep entries in order, and come back byte for byte.
func treeIO(x *X, t Tree) error {
	seen := map[string]bool{}
	dup := false
	for _, e := range t {
		dup = dup || seen[e.Name]
		seen[e.Name] = true
	}
	if dup {
		in := Wire(t)
		x.Input(in)
		x.Outcome("duplicate name, rejected")
		if n, err := git.ParseObject(bytes.NewReader(in)); err == nil {
			return fmt.Errorf("a tree with two entries of one name is accepted, with %d entries", n.Length())
		}
		return entryByEntry(t)
	}
	x.Outcome("entries=%s", few(len(t)))
	n, err := roundTrip(x, t)
	if err != nil {
		return err
	}
	if err := expectNode(n, t); err != nil {
		return err
	}
	g, ok := n.(git.Tree)
	if !ok {
		return fmt.Errorf("a decoded tree is a %T", n)
	}
	if n.Length() != int64(len(t)) {
		return fmt.Errorf("length %d of a tree with %d entries", n.Length(), len(t))
	}
	it := g.Iterator()
	for i, e := range t {
		if it.Done() {
			return fmt.Errorf("the typed iterator ends at entry %d of %d", i, len(t))
		}
		k, v := it.Next()
		if err := first(eqs("name", k.String(), e.Name), eqs("mode", v.FieldMode().String(), e.Mode), eqs("hash", dmAnyLink(v.FieldHash().Link()), dmLink(e.Sha))); err != nil {
			return fmt.Errorf("typed iterator, entry %d: %w", i, err)
		}
		if i < 64 || i == len(t)-1 {
			l, err := n.LookupByString(e.Name)
			if err != nil {
				return fmt.Errorf("entry %q cannot be looked up: %v", e.Name, err)
			}
			if got, err := dump(l, false); err != nil || got != dmMap(map[string]string{"mode": dmStr(e.Mode), "hash": dmLink(e.Sha)}) {
				return fmt.Errorf("looking up entry %q gives %s (%v)", e.Name, clip(got), err)
			}
		}
	}
	if !it.Done() {
		return fmt.Errorf("the typed iterator does not end after %d entries", len(t))
	}
	return entryByEntry(t)
}

// entryByEntry reads the entries of a tree's body one at a time, keeping them all.
func entryByEntry(t Tree) error {
	rd := bufio.NewReaderSize(bytes.NewReader(t.Body()), 16)
	var names []string
	var nodes []ipld.Node
	for i := range t {
		name, n, err := git.DecodeTreeEntry(rd)
		if err != nil {
			return fmt.Errorf("DecodeTreeEntry of entry %d of %d: %v", i, len(t), err)
		}
		names, nodes = append(names, name), append(nodes, n)
	}
	if name, _, err := git.DecodeTreeEntry(rd); !errors.Is(err, io.EOF) {
		return fmt.Errorf("DecodeTreeEntry after the last entry gives %q, %v", name, err)
	}
	for i, e := range t {
		got, err := dump(nodes[i], false)
		if err := first(err, eqs("name", names[i], e.Name), eqs("entry", got, dmMap(map[string]string{"mode": dmStr(e.Mode), "hash": dmLink(e.Sha)}))); err != nil {
			return fmt.Errorf("DecodeTreeEntry, entry %d: %w", i, err)
		}
	}
	return nil
}

func init() {
	small := []Entry{{"100644", "a", shas[0]}, {"40000", "b", shas[1]}, {"100755", "a.c", shas[0]}, {"120000", "a", shas[2]}, {"160000", "", shas[3]}, {"040000", "b", shas[1]}, {"100644", "a/", shas[4]}, {"100644", "Z z", shas[5]}}
	register(&Property{ID: "C05",
		Bounds: map[string]any{"sequences": fmt.Sprintf("all sequences of up to 4 (thorough 6) entries over %d entries, with name collisions", len(small)), "modes": len(modes), "names": len(entryNames), "hashes": "every byte value at each of the 20 positions", "lengths": lens},
		Scenarios: []*Scenario{
			gitScenario("tree", func(x *X, o Object) error { return first(gitRoundTrip(x, o), gitNode(x, o)) }),
			{Name: "interactions", Desc: interactingDesc, Bound: 4, Thorough: 7, Run: func(x *X) error { return treeIO(x, interactingTree(x)) }},
			{Name: "sequences", Desc: "all sequences of entries over a colliding alphabet: any order, any repetition", Run: func(x *X) error {
				n := x.All(pick(5, 7))
				var t Tree
				for i := 0; i < n; i++ {
					t = append(t, small[x.All(len(small))])
				}
				return treeIO(x, t)
			}},
			{Name: "values", Desc: "three entries, all values varied together up to the bound", Bound: 2, Thorough: 3, Run: func(x *X) error {
				t := Tree{}
				for i := 0; i < 3; i++ {
					name := fmt.Sprint("n", i)
					if k := x.Choose(len(entryNames) + 1); k > 0 {
						name = entryNames[k-1]
					}
					t = append(t, Entry{x.Str(modes), name, x.Str(shas)})
				}
				return treeIO(x, t)
			}},
			{Name: "hashes", Desc: "every byte value at every position of an entry's hash, first, middle or last entry", Run: func(x *X) error {
				h := []byte(shas[x.All(2)])
				h[x.All(20)] = byte(x.All(256))
				t := Tree{{"100644", "a", shas[0]}, {"40000", "b", shas[1]}, {"100644", "c", shas[0]}}
				t[x.All(3)].Sha = string(h)
				return treeIO(x, t)
			}},
			{Name: "bytes", Desc: "every byte value at every place of a name and a mode", Run: func(x *X) error {
				f := x.All(2)
				s, b := byteAt(x, "ab")
				if b == 0 || (f == 1 && b == ' ') {
					x.Outcome("outside the format")
					return nil
				}
				t := Tree{{"100644", "a", shas[0]}, {"40000", "b", shas[1]}}
				if f == 0 {
					t[x.All(2)].Name = s
				} else {
					t[x.All(2)].Mode = s
				}
				return treeIO(x, t)
			}},
			{Name: "dictionary", Desc: "every constant of the code, alone and inside other text, as a name and as a mode, with and without entries before and after", Run: func(x *X) error {
				f := x.All(2)
				s := literal(x)
				if strings.Contains(s, "\x00") || f == 1 && strings.Contains(s, " ") {
					x.Outcome("outside the format")
					return nil
				}
				e := Entry{x.AllStr(modes[:5]), s, shas[0]}
				if f == 1 {
					e.Mode, e.Name = s, x.AllStr([]string{"file", "", "tree"})
				}
				t := append(append(Tree{{"100644", "before", shas[1]}}[x.All(2):], e), Tree{{"40000", "zz", shas[4]}}[x.All(2):]...)
				return treeIO(x, t)
			}},
			{Name: "kin", Desc: "two names that might be taken for one another", Run: func(x *X) error {
				a, b, ok := kin(x)
				if !ok {
					return nil
				}
				t := Tree{{"100644", a, shas[0]}, {"40000", "zz", shas[2]}, {"100755", b, shas[1]}}
				if x.All(2) == 1 {
					t[1], t[2] = t[2], t[1]
				}
				return treeIO(x, t)
			}},
			{Name: "words", Desc: "every short word as a name and as a mode", Run: func(x *X) error {
				f := x.All(2)
				al := []string{"a", " ", "/", ".", "\n", "\r", "\xff", "%", "0", "1"}
				if f == 1 {
					al = []string{"0", "1", "4", "6", "7", "a", "\n", "-"}
				}
				s := word(x, al, pick(4, 5))
				t := Tree{{"100644", "file", shas[0]}, {"40000", "zz", shas[4]}}
				if f == 0 {
					t[0].Name = s
				} else {
					t[0].Mode = s
				}
				return treeIO(x, t)
			}},
			{Name: "counts", Desc: "numbers of entries, in three orders", Run: func(x *X) error {
				n := x.AllInt(around([]int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2000}, 5000))
				if thorough() && x.All(2) == 1 {
					n *= 20
				}
				o := x.All(3)
				var t Tree
				for i := 0; i < n; i++ {
					k := []int{i, n - i, (i*7919 + 13) % 100003}[o]
					t = append(t, Entry{modes[i%5], fmt.Sprintf("entry-%d", k), raw(hexN(i))})
				}
				return treeIO(x, t)
			}},
			{Name: "lengths", Desc: "name and mode lengths, and boundaries of the read buffer through every byte of the following entries", Run: func(x *X) error {
				var n int
				if x.All(2) == 0 {
					n = x.AllInt(pick(lens, append(append([]int{}, lens...), 1<<18, 1<<20, 1<<22)))
				} else {
					n = x.AllInt(pick([]int{3950, 8046}, []int{3950, 8046, 16238, 65390})) + x.All(160)
				}
				t := Tree{{"100644", "a", shas[4]}, {"40000", "b b", shas[5]}, {"100755", "c", shas[2]}}
				if x.All(2) == 0 {
					t[x.All(2)].Name = rep("n", n)
				} else {
					t[0].Mode = rep("1", n)
				}
				return treeIO(x, t)
			}},
			{Name: "totals", Desc: "trees whose body or whole form is a multiple of a buffer size, or one byte off", Run: func(x *X) error {
				k := x.All(3)
				o := padded(x, func(f string) Object {
					t := Tree{{"100644", "a", shas[4]}, {"40000", "b b", shas[5]}, {"100755", "c", shas[2]}}
					t[k].Name += f
					return t
				})
				if o == nil {
					x.Outcome("too short")
					return nil
				}
				return treeIO(x, o.(Tree))
			}},
			{Name: "truncated", Desc: "a tree cut at every byte and labelled with its real length is accepted only between entries", Run: func(x *X) error {
				t := Tree{{"100644", "a", shas[0]}, {"40000", "dir b", shas[4]}, {"100755", "c", shas[2]}}
				if x.All(2) == 1 {
					t[0].Name = rep("n", 4080)
				}
				body := t.Body()
				ends := map[int]int{0: 0}
				at := 0
				for i, e := range t {
					at += len(Tree{e}.Body())
					ends[at] = i + 1
				}
				cut := x.All(len(body) + 1)
				if k, ok := ends[cut]; ok {
					return treeIO(x, t[:k])
				}
				in := wire("tree", body[:cut])
				x.Input(in)
				x.Outcome("cut inside an entry, rejected")
				if _, err := git.ParseObject(bytes.NewReader(in)); err == nil {
					return fmt.Errorf("a tree that ends %d bytes into its body, inside an entry, is accepted", cut)
				}
				return nil
			}},
		}})

	// ownHeader puts a header in front that counts itself.
	ownHeader := func(typ string, b []byte) []byte {
		for n := len(b); ; n++ {
			h := fmt.Sprintf("%s %d\x00", typ, n)
			if len(h)+len(b) == n {
				return append([]byte(h), b...)
			}
			if n > len(b)+40 { // no such number
				return append([]byte(h), b...)
			}
		}
	}
	blob := func(x *X, content []byte) error {
		x.Outcome("length class %s", few(len(content)))
		b := Blob(content)
		n, err := roundTrip(x, b)
		if err != nil {
			return err
		}
		g, ok := n.(git.Blob)
		if !ok {
			return fmt.Errorf("a decoded blob is a %T", n)
		}
		in := Wire(b)
		v, err := n.AsBytes()
		if err != nil {
			return err
		}
		if !bytes.Equal(v, in) {
			return fmt.Errorf("a blob's bytes are not its serialized form: %s", diffAt(v, in))
		}
		if !bytes.Equal(g.Bytes(), in) {
			return fmt.Errorf("the typed accessor gives other bytes: %s", diffAt(g.Bytes(), in))
		}
		return expectNode(n, b)
	}
	register(&Property{ID: "C06", Bounds: map[string]any{"lengths": lens, "contents": "all strings of up to 2 bytes, all words of up to 4 (5) structural bytes"},
		Scenarios: []*Scenario{
			gitScenario("blob", func(x *X, o Object) error { return blob(x, o.Body()) }),
			{Name: "dictionary", Desc: "every constant of the code and every pair of them, and texts of up to 2 meaningful lines", Run: func(x *X) error {
				switch x.All(3) {
				case 0:
					return blob(x, []byte(literal(x)))
				case 1:
					return blob(x, []byte(literalPair(x)))
				default:
					return blob(x, []byte(document(x, 2)))
				}
			}},
			{Name: "nested", Desc: "contents that are, or begin with, a header: their own, another blob's, one of another type, to several depths", Run: func(x *X) error {
				b := []byte(x.AllStr([]string{"", "a", "hello\n", "\x00", "blob", "blob ", "blob 0", "tree " + hexA + "\n\nm", rep("x", 88), rep("x", 5000)}))
				for depth := x.All(4); depth > 0; depth-- {
					switch x.All(5) {
					case 0: // the header of the rest
						b = wire("blob", b)
					case 1: // the header of all, this header included
						b = ownHeader("blob", b)
					case 2:
						b = wire(x.AllStr([]string{"tree", "commit", "tag", "BLOB", ""}), b)
					case 3:
						b = ownHeader(x.AllStr([]string{"tree", "commit", "tag"}), b)
					default:
						b = append(b, wire("blob", b)...)
					}
				}
				return blob(x, b)
			}},
			{Name: "short", Desc: "every content of up to two bytes", Run: func(x *X) error {
				n := x.All(3)
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(x.All(256))
				}
				return blob(x, b)
			}},
			{Name: "words", Desc: "every word over structural bytes", Run: func(x *X) error {
				return blob(x, []byte(word(x, []string{"a", "\x00", "\n", " ", "\r", "\xff", "0", "blob 1\x00", "tree ", "\x1a"}, pick(4, 5))))
			}},
			{Name: "lengths", Desc: "lengths around buffer sizes and digit counts, with every kind of filling", Run: func(x *X) error {
				ls := append(append([]int{}, lens...), 999999, 1000000, 1<<20-1, 1<<20, 1<<20+1)
				if thorough() {
					ls = append(ls, 1<<22, 1<<24, 9999999, 10000000, 1<<26+1)
				}
				n := x.AllInt(ls)
				k := x.All(4)
				b := make([]byte, n)
				for i := range b {
					switch k {
					case 0:
						b[i] = 'x'
					case 1:
						b[i] = 0
					case 2:
						b[i] = byte(i * 7)
					case 3:
						b[i] = '\n'
					}
				}
				return blob(x, b)
			}},
			{Name: "totals", Desc: "blobs whose content or whole form is a multiple of a buffer size, or one byte off", Run: func(x *X) error {
				o := padded(x, func(f string) Object { return Blob(f) })
				if o == nil {
					x.Outcome("too short")
					return nil
				}
				return blob(x, []byte(o.(Blob)))
			}},
			{Name: "consecutive", Desc: "every length up to a bound", Run: func(x *X) error {
				n := x.All(pick(9000, 70000))
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(i>>8) ^ byte(i)
				}
				return blob(x, b)
			}},
			{Name: "texts", Desc: "messages and other objects as contents", Run: func(x *X) error {
				all := append([]string{}, messages...)
				all = append(all, otherLines...)
				for _, m := range messages {
					all = append(all, string(wire("blob", []byte(m))), string(wire("commit", []byte(m))))
				}
				return blob(x, []byte(x.AllStr(all)))
			}},
		}})
}
