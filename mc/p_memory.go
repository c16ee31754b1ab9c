package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
)

// The budget: what one call may allocate in all, for n bytes that arrive.
const (
	perByte  = 400
	constant = 4 << 20
)

// allocated is how many bytes f allocates, freed ones included.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// A family is a way for an object to grow: about n bytes long.
type family struct {
	name, typ string
	body      func(n int) []byte
}

func many(unit string, n int) string { return strings.Repeat(unit, max(1, n/len(unit))) }

func manyN(n int, unit func(i int) string) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		b.WriteString(unit(i))
	}
	return b.String()
}

var families = func() []family {
	t := "tree " + hexA + "\n"
	mt := "mergetag object " + hexA + "\n"
	begin, end := "gpgsig -----BEGIN PGP SIGNATURE-----\n", " -----END PGP SIGNATURE-----\n"
	o := "object " + hexA + "\n"
	var fs []family
	f := func(name, typ string, body func(n int) string) {
		fs = append(fs, family{name, typ, func(n int) []byte { return []byte(body(n)) }})
	}
	f("content", "blob", func(n int) string { return many("b", n) })
	f("zero bytes", "blob", func(n int) string { return many("\x00", n) })
	f("entries", "tree", func(n int) string {
		return manyN(n, func(i int) string { return fmt.Sprintf("1 %d\x00", i) + rep("s", 20) })
	})
	f("long name", "tree", func(n int) string { return "100644 " + many("n", n) + "\x00" + rep("s", 20) })
	f("name of spaces", "tree", func(n int) string { return "100644 " + many(" ", n) + "\x00" + rep("s", 20) })
	f("long mode", "tree", func(n int) string { return many("1", n) + " n\x00" + rep("s", 20) })
	f("same entry again", "tree", func(n int) string { return many("1 \x00"+rep("s", 20), n) })
	f("parents", "commit", func(n int) string { return t + many("parent "+hexB+"\n", n) + "\nm" })
	f("trees", "commit", func(n int) string { return many(t, n) + "\nm" })
	f("authors", "commit", func(n int) string { return t + many("author a <b> 1 +0\n", n) + "\nm" })
	f("encodings", "commit", func(n int) string { return t + many("encoding e\n", n) + "\nm" })
	f("other lines", "commit", func(n int) string { return t + many("o\n", n) + "\nm" })
	f("continuation lines", "commit", func(n int) string { return t + "x y\n" + many(" z\n", n) + "\nm" })
	f("message", "commit", func(n int) string { return t + "\n" + many("m", n) })
	f("message of newlines", "commit", func(n int) string { return t + "\n" + many("\n", n) })
	f("mergetags", "commit", func(n int) string { return t + many(mt, n) + "\nm" })
	f("mergetags with a message", "commit", func(n int) string {
		return t + many(mt+" type commit\n tag v\n tagger a <b> 1 +0\n \n x\n", n) + "\nm"
	})
	f("mergetag message", "commit", func(n int) string { return t + mt + " type c\n tag v\n \n" + many(" \n", n) + "\nm" })
	f("mergetag message of one line", "commit", func(n int) string { return t + mt + " type c\n tag v\n \n " + many("x", n) + "\n\nm" })
	f("mergetag unknown lines", "commit", func(n int) string { return t + mt + many(" x\n", n) + "\nm" })
	f("mergetag tag lines", "commit", func(n int) string { return t + mt + many(" tag \n", n) + "\nm" })
	f("signature lines", "commit", func(n int) string { return t + begin + " \n" + many(" \n", n) + end + "\nm" })
	f("signature empty lines", "commit", func(n int) string { return t + begin + " \n" + many("\n", n) + end + "\nm" })
	f("signature of one line", "commit", func(n int) string { return t + begin + " \n " + many("s", n) + "\n" + end + "\nm" })
	f("signature version", "commit", func(n int) string { return t + begin + " Version: " + many("s", n) + "\n" + end + "\nm" })
	f("signatures", "commit", func(n int) string { return t + many(begin+" \n"+end, n) + "\nm" })
	f("mergetags between other lines", "commit", func(n int) string { return t + many(mt+"o\n", n) + "\nm" })
	f("different parents", "commit", func(n int) string {
		return t + manyN(n, func(i int) string { return fmt.Sprintf("parent %040x\n", i) }) + "\nm"
	})
	f("different other lines", "commit", func(n int) string {
		return t + manyN(n, func(i int) string { return fmt.Sprintf("o%d\n", i) }) + "\nm"
	})
	f("different mergetags", "commit", func(n int) string {
		return t + manyN(n, func(i int) string { return fmt.Sprintf("mergetag object %040x\n type c\n tag v%d\n", i, i) }) + "\nm"
	})
	f("different mergetag message lines", "commit", func(n int) string {
		return t + mt + " type c\n tag v\n \n" + manyN(n, func(i int) string { return fmt.Sprintf(" %d\n", i) }) + "\nm"
	})
	f("different signature lines", "commit", func(n int) string {
		return t + begin + " \n" + manyN(n, func(i int) string { return fmt.Sprintf(" %d\n", i) }) + end + "\nm"
	})
	f("names that each begin the next", "tree", func(n int) string {
		return manyN(n, func(i int) string { return "100644 " + rep("n", i) + "\x00" + rep("s", 20) })
	})
	f("names with one length", "tree", func(n int) string {
		return manyN(n, func(i int) string { return fmt.Sprintf("40000 %08x\x00", i*0x9E3779B1&0xFFFFFFFF) + rep("s", 20) })
	})
	for _, p := range []struct{ name, typ, pre, post string }{
		{"author", "commit", t + "author ", "\n\nm"}, {"committer", "commit", t + "committer ", "\n\nm"}, {"tagger", "tag", o + "type c\ntag v\ntagger ", "\n\nm"},
		{"mergetag tagger", "commit", t + mt + " type c\n tag v\n tagger ", "\n \n m\n\nm"},
	} {
		for _, u := range []string{"x", " ", "w ", "<", "> ", " <"} {
			f(fmt.Sprintf("%s name of %q", p.name, u), p.typ, func(n int) string { return p.pre + "n" + many(u, n) + " <e> 1 +0" + p.post })
			f(fmt.Sprintf("%s email of %q", p.name, u), p.typ, func(n int) string { return p.pre + "n <" + many(u, n) + "> 1 +0" + p.post })
			f(fmt.Sprintf("%s date of %q", p.name, u), p.typ, func(n int) string { return p.pre + "n <e> " + many(u, n) + p.post })
			f(fmt.Sprintf("%s unfinished with %q", p.name, u), p.typ, func(n int) string { return p.pre + many(u, n) })
		}
	}
	for _, h := range []string{"tree ", "parent ", "encoding ", "mergetag object ", "gpgsig ", "other "} {
		f("long "+h, "commit", func(n int) string { return t + h + many("0a", n) + "\n\nm" })
	}
	f("objects", "tag", func(n int) string { return many(o, n) + "type c\ntag v\n\nm" })
	f("tag names", "tag", func(n int) string { return o + "type c\n" + many("tag v\n", n) + "\nm" })
	f("types", "tag", func(n int) string { return o + many("type c\n", n) + "tag v\n\nm" })
	f("taggers", "tag", func(n int) string { return o + many("tagger a <b> 1 +0\n", n) + "\nm" })
	f("unknown lines", "tag", func(n int) string { return o + many("x\n", n) + "\nm" })
	f("unknown line", "tag", func(n int) string { return o + many("x", n) + "\n\nm" })
	f("long tag name", "tag", func(n int) string { return o + "tag " + many("x", n) + "\n\nm" })
	f("long type", "tag", func(n int) string { return o + "type " + many("x", n) + "\n\nm" })
	f("long object", "tag", func(n int) string { return "object " + many("0a", n) + "\n\nm" })
	f("message", "tag", func(n int) string { return o + "\n" + many("m", n) })
	f("message of newlines", "tag", func(n int) string { return o + "\n" + many("\n", n) })
	return fs
}()

var hugeSizes = []string{"1000", "65536", "1000000", "100000000", "999999999", "2147483647", "2147483648", "4294967295", "4294967296", "1099511627776", "4611686018427387904", "9223372036854775807", "9223372036854775806"}

// within checks one decoding against the budget, and the encoding of its result.
func within(x *X, what string, in []byte, typ string, ep entryPoint) error {
	var n ipld.Node
	var err error
	limit := uint64(perByte*len(in) + constant)
	used := allocated(func() { n, err = ep.run(in, typ) })
	if used > limit {
		return fmt.Errorf("%s: %s allocates %d bytes for %d bytes of input (%.1f per byte)", what, ep.name, used, len(in), float64(used)/float64(len(in)))
	}
	ratio := int(used) / max(1, len(in))
	lvl := 0
	for _, l := range []int{4, 10, 20, 40, 80} {
		if len(in) > 1<<16 && ratio > l {
			lvl = l
		}
	}
	x.Outcome("accepted=%v, more than %d bytes per byte", err == nil, lvl)
	if err != nil {
		return nil
	}
	var eerr error
	sink := &countWriter{}
	used = allocated(func() { eerr = git.Encode(n, sink) })
	if used > limit {
		return fmt.Errorf("%s: encoding allocates %d bytes for an object of %d bytes", what, used, len(in))
	}
	if eerr != nil {
		return nil
	}
	return nil
}

type countWriter struct{ n int }

func (c *countWriter) Write(p []byte) (int, error) { c.n += len(p); return len(p), nil }

// slow gives a few bytes at a time.
type slow struct {
	r io.Reader
	n int
}

func (s slow) Read(p []byte) (int, error) { return s.r.Read(p[:min(len(p), s.n)]) }

func slowly(k int) entryPoint {
	return entryPoint{"ParseObject", func(in []byte, _ string) (ipld.Node, error) {
		return git.ParseObject(slow{bytes.NewReader(in), k})
	}}
}

func init() {
	sizes := func() []int {
		return pick([]int{1 << 10, 1 << 17, 1 << 20}, []int{1 << 10, 1 << 14, 1 << 17, 1 << 20, 1 << 23})
	}
	register(&Property{ID: "C20", MaxStack: 256 << 10,
		Bounds: map[string]any{"families": len(families), "sizes": "1 KiB, 128 KiB, 1 MiB (thorough: up to 8 MiB)", "declared sizes": hugeSizes, "budget": fmt.Sprintf("%d bytes per byte that arrives plus %d", perByte, constant), "stack": "256 KiB"},
		Assume: []string{"allocation is what the Go runtime counts; the budget is several times what the code uses today, so that only another order of growth exceeds it"},
		Scenarios: []*Scenario{
			{Name: "growth", Serial: true, Desc: "every way for an object to grow, complete, cut short, spoilt at the end, and with a size that is not its own", Run: func(x *X) error {
				f := families[x.All(len(families))]
				n := x.AllInt(sizes())
				body := f.body(n)
				in := wire(f.typ, body)
				what := f.name + " of a " + f.typ
				switch x.All(4) {
				case 1:
					in = in[:len(in)-2]
					what += ", cut short"
				case 2:
					body = append(body, "\nparent \ntagger \n"...)
					in = wire(f.typ, body)
					what += ", spoilt"
				case 3:
					in = append([]byte(f.typ+" 9223372036854775807\x00"), body...)
					what += ", declared huge"
				}
				x.Input(in[:min(len(in), 4096)])
				return within(x, what, in, f.typ, entryPoints[0])
			}},
			{Name: "entries", Serial: true, Desc: "every family through every entry point", Run: func(x *X) error {
				f := families[x.All(len(families))]
				ep := entryPoints[x.All(len(entryPoints))]
				in := wire(f.typ, f.body(pick(1<<17, 1<<20)))
				x.Input(in[:min(len(in), 4096)])
				return within(x, f.name+" of a "+f.typ, in, f.typ, ep)
			}},
			{Name: "declared", Serial: true, Desc: "every type with a huge declared size and a short body", Run: func(x *X) error {
				typ := x.AllStr([]string{"blob", "tree", "commit", "tag"})
				size := x.AllStr(hugeSizes)
				body := map[string]string{"blob": "abc", "tree": "1 a\x00" + rep("s", 20), "commit": "tree " + hexA + "\nparent " + hexB + "\n\nmsg", "tag": "object " + hexA + "\ntype c\ntag v\n\nm"}[typ]
				body = body[:x.All(len(body)+1)]
				in := []byte(typ + " " + size + "\x00" + body)
				x.Input(in)
				return within(x, "a "+typ+" declared to have "+size+" bytes", in, typ, entryPoints[0])
			}},
			{Name: "declared-entries", Serial: true, Desc: "a huge declared size through every entry point", Run: func(x *X) error {
				typ := x.AllStr([]string{"blob", "tree", "commit", "tag"})
				size := x.AllStr(hugeSizes)
				ep := entryPoints[x.All(len(entryPoints))]
				in := []byte(typ + " " + size + "\x00" + map[string]string{"blob": "abc", "tree": "1 a\x00" + rep("s", 20), "commit": "tree " + hexA + "\n\nm", "tag": "object " + hexA + "\n"}[typ])
				x.Input(in)
				return within(x, "a "+typ+" declared to have "+size+" bytes", in, typ, ep)
			}},
			{Name: "headers", Serial: true, Desc: "type words and sizes without end", Run: func(x *X) error {
				n := x.AllInt(sizes())
				in := []byte([]string{many("x", n), "blob " + many("1", n), "blob " + many("0", n) + "1\x00a", "tree " + many(" ", n) + "\x00", many("blob ", n), "tag -" + many("9", n) + "\x00", "commit " + many("\n", n)}[x.All(7)])
				ep := entryPoints[x.AllInt([]int{0, 1, 2, 3, 4, 6, 7})]
				x.Input(in[:min(len(in), 4096)])
				return within(x, "a header", in, typeWord(in), ep)
			}},
			{Name: "slow", Serial: true, Desc: "every family a few bytes at a time", Run: func(x *X) error {
				f := families[x.All(len(families))]
				in := wire(f.typ, f.body(1<<17))
				k := x.AllInt([]int{1, 100})
				x.Input(in[:min(len(in), 4096)])
				return within(x, fmt.Sprintf("%s of a %s, %d bytes at a time", f.name, f.typ, k), in, f.typ, slowly(k))
			}},
		}})
}
