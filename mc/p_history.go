package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"

	blocks "github.com/ipfs/go-block-format"
	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
)

// A world is everything that a history can observe: the nodes decoded so far with
// what they must be, one input buffer that every decoding shares, one output
// buffer that every encoding shares, and builders that are used again.
type world struct {
	x        *X
	in       []byte
	out      bytes.Buffer
	rd       *bufio.Reader
	builders map[string]ipld.NodeBuilder
	held     []held
	log      []string
}

type held struct {
	n    ipld.Node
	o    Object
	subs []sub
	ord  bool
}

type sub struct {
	n    ipld.Node
	want string
}

func newWorld(x *X) *world {
	return &world{x: x, in: make([]byte, 0, 1<<11), builders: map[string]ipld.NodeBuilder{}, rd: bufio.NewReader(nil)}
}

func (w *world) note(f string, a ...any) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

func (w *world) wrap(err error) error {
	if err == nil {
		return nil
	}
	return fmt.Errorf("after %q: %w", w.log, err)
}

// keep compares a fresh node with the object and holds on to it and its parts.
func (w *world) keep(n ipld.Node, o Object) error {
	if err := expectNode(n, o); err != nil {
		return err
	}
	h := held{n: n, o: o, ord: o.Typ() == "tree"}
	var err error
	if n.Kind() == ipld.Kind_Map {
		for it := n.MapIterator(); !it.Done(); {
			_, v, e := it.Next()
			if e != nil {
				return e
			}
			if v.IsAbsent() {
				continue
			}
			s := sub{n: v}
			if s.want, err = dump(v, false); err != nil {
				return err
			}
			h.subs = append(h.subs, s)
		}
	}
	w.held = append(w.held, h)
	return nil
}

// steady is the invariant: every node held still has its value and its encoding.
func (w *world) steady() error {
	for i, h := range w.held {
		if err := expectNode(h.n, h.o); err != nil {
			return w.wrap(fmt.Errorf("the node of decoding %d has changed: %w", i, err))
		}
		for _, s := range h.subs {
			got, err := dump(s.n, false)
			if err != nil {
				return w.wrap(err)
			}
			if got != s.want {
				return w.wrap(fmt.Errorf("a part of the node of decoding %d has changed from %s to %s", i, clip(s.want), clip(got)))
			}
		}
		if err := w.encodesStill(i); err != nil {
			return err
		}
	}
	return nil
}

func (w *world) encodesStill(i int) error {
	w.out.Reset()
	h := w.held[i]
	if err := git.Encode(h.n, &w.out); err != nil {
		return w.wrap(fmt.Errorf("the node of decoding %d cannot be encoded: %w", i, err))
	}
	if want := Wire(h.o); !bytes.Equal(w.out.Bytes(), want) {
		return w.wrap(fmt.Errorf("the node of decoding %d has another encoding: %s", i, diffAt(w.out.Bytes(), want)))
	}
	return nil
}

// load puts an input into the shared buffer.
func (w *world) load(in []byte) []byte {
	w.in = append(w.in[:0], in...)
	return w.in
}

// scribble overwrites what is in the shared buffer.
func (w *world) scribble(with byte) {
	b := w.in[:cap(w.in)]
	n := min(len(b), len(w.in)+64)
	for i := range b[:n] {
		b[i] = with
	}
}

// how many ways there are to decode in a history.
var historyEntries = func() []entryPoint {
	eps := append([]entryPoint{}, entryPoints[1], entryPoints[0])
	eps = append(eps, entryPoints[2:]...)
	// DecodeBlock does not check the name: the data count
	return append(eps, entryPoint{"DecodeBlock, all blocks under one name", func(in []byte, _ string) (ipld.Node, error) {
		blk, err := blocks.NewBlockWithCid(in, oneName)
		must(err)
		return git.DecodeBlock(blk)
	}})
}()

var oneName = rawCid("\x01\x78\x11\x14" + rep("\xc1", 20))

var nEntries = len(historyEntries) + 3

func (w *world) decodeWith(e int, in []byte, typ string) (ipld.Node, error) {
	if e < len(historyEntries) {
		w.note("%s %.40q", historyEntries[e].name, in)
		return historyEntries[e].run(w.load(in), typ)
	}
	b := w.load(in)
	if typ == "" {
		typ = "blob"
	}
	// a builder that is used again
	nb := w.builders[typ]
	if nb == nil {
		nb = protoFor(typ, 0).NewBuilder()
		w.builders[typ] = nb
	} else {
		nb.Reset()
	}
	var err error
	switch e - len(historyEntries) {
	case 0:
		w.note("Decode with a builder that is reset %.40q", in)
		err = git.Decode(nb, bytes.NewReader(b))
	case 1: // the caller's own buffered reader, used again
		w.note("Decode with a reader that is reset %.40q", in)
		w.rd.Reset(bytes.NewReader(b))
		err = git.Decode(nb, w.rd)
	default:
		w.note("decoder of the type with a reader that is reset %.40q", in)
		w.rd.Reset(bytes.NewReader(b))
		if t, err := w.rd.ReadString(' '); err != nil || t != typ+" " {
			return nil, fmt.Errorf("not a %s", typ)
		}
		err = perType(typ, nb, w.rd)
	}
	if err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

func (w *world) decode(o Object, e int) error {
	n, err := w.decodeWith(e, Wire(o), o.Typ())
	if err != nil {
		return w.wrap(fmt.Errorf("a well-formed %s is rejected: %w", o.Typ(), err))
	}
	if e >= 2 && n.Kind() == ipld.Kind_Map { // a generic node is as good
		return w.wrap(w.keep(n, o))
	}
	return w.wrap(w.keep(n, o))
}

func (w *world) decodeBad(in []byte, e int) error {
	n, err := w.decodeWith(e, in, typeWord(in))
	if err == nil {
		_ = n
		return w.wrap(fmt.Errorf("malformed input %.60q is accepted", in))
	}
	return nil
}

// cut is a reader that fails in the middle.
func (w *world) decodeCut(o Object, at int) error {
	in := w.load(Wire(o))
	w.note("a reader that fails after %d bytes of %.40q", at, in)
	n, err := git.ParseObject(io.MultiReader(bytes.NewReader(in[:at]), readerFunc(func([]byte) (int, error) { return 0, errInjected })))
	if err == nil {
		_ = n
		return w.wrap(fmt.Errorf("a reader's failure after %d bytes is not reported", at))
	}
	return nil
}

func (w *world) encodeCut(i, at int) error {
	w.note("encode %d to a writer that fails after %d bytes", i, at)
	left := at
	err := git.Encode(w.held[i].n, &planWriter{next: func(n int) (int, error) {
		if n <= left {
			left -= n
			return n, nil
		}
		n = left
		left = 0
		return n, errInjected
	}})
	if err == nil {
		return w.wrap(fmt.Errorf("a writer's failure after %d bytes is not reported", at))
	}
	return nil
}

// historyObjects: pairs of each type, the second shorter than or as long as the
// first, or having less in it.
var historyObjects = func() []Object {
	enc := "latin1"
	q := &Person{"Zed", "z@zz", "99", "-0330"}
	return fix([]Object{
		&Commit{Tree: hexB, Parents: []string{hexB, hexA}, Author: person1(), Committer: q, Encoding: &enc, Mergetags: []MergeTag{{hexB, "commit", "v1", person1(), []string{" msg", " ", " more"}}, {hexA, "tag", "w", nil, nil}}, Sig: &Sig{" ", []string{" abc", " =x"}}, Other: []string{"HG:x y", "z"}, Message: "subject\n\nbody\n"},
		&Commit{Tree: hexA, Message: "m\n"},
		&Commit{Tree: hexA, Parents: []string{hexA}, Author: q, Committer: person1(), Mergetags: []MergeTag{{hexA, "tree", "z9", q, []string{" q"}}}, Sig: &Sig{" Version: 1", []string{" xyz"}}, Other: []string{"k"}, Message: "other\n"},
		&Tag{hexA, "commit", "v1", person1(), "tag message\n"},
		&Tag{hexB, "tree", "v", nil, ""},
		Tree{{"40000", "dir", shas[4]}, {"100755", "x y", shas[1]}, {"160000", "z", shas[2]}},
		Tree{{"100644", "dir", shas[1]}},
		Tree{},
		Blob("hello blob\n"),
		Blob("bye"),
	})
}()

var badInputs = [][]byte{
	nil, []byte("blob 3\x00ab"), []byte("blob 1\x00ab"), []byte("xyz 0\x00"), []byte("tree 30\x00100644 a\x00" + rep("s", 19)),
	wire("commit", []byte("tree "+hexB+"\nparent "+hexA+"\nauthor A <a@b> 1 +0\nmergetag object "+hexA+"\n type commit\n tag t\n \n leftover")),
	wire("commit", []byte("tree "+hexB+"\nparent "+hexA+"\nencoding left\nother left\ngpgsig -----BEGIN PGP SIGNATURE-----\n \n left over")),
	wire("commit", []byte("tree "+hexB+"\nauthor left over")),
	wire("tag", []byte("object "+hexA+"\ntype left\ntag left\ntagger left")),
	append(wire("tree", []byte("100644 left\x00"+rep("l", 20)+"100644 over\x00"+rep("l", 20)))[:60], "x"...),
	append(wire("commit", []byte("tree "+hexB+"\n\nleft over"))[:70], "!!!!!!!!!!!!!!!!!!!!!!!!!!!"...),
}

// step performs one operation of a history; every operation is explored.
func (w *world) step(entry func() int) error {
	x := w.x
	nobj, nbad := len(historyObjects), len(badInputs)
	k := x.All(nobj + nbad + 4)
	switch {
	case k < nobj:
		return w.decode(historyObjects[k], entry())
	case k < nobj+nbad:
		return w.decodeBad(badInputs[k-nobj], entry())
	}
	switch k - nobj - nbad {
	case 0:
		w.note("the input buffer is overwritten")
		w.scribble(x.w2("\n \x00"))
	case 1:
		o := historyObjects[x.Choose(len(historyObjects))]
		at := []int{len(Wire(o)) - 1, len(Wire(o)) / 2, 9, 0}[x.Choose(4)]
		return w.decodeCut(o, at)
	case 2:
		if len(w.held) == 0 {
			return nil
		}
		i := x.Choose(len(w.held))
		size := len(Wire(w.held[i].o))
		return w.encodeCut(i, min(size-1, []int{size - 1, size / 2, 3, 0, 10}[x.Choose(5)]))
	default:
		if len(w.held) == 0 {
			return nil
		}
		i := x.Choose(len(w.held))
		w.note("encode the %s of decoding %d as another implementation", w.held[i].o.Typ(), i)
		out, err := encode(asImpl(w.held[i].n, 1+x.Choose(3)))
		if err != nil {
			return w.wrap(err)
		}
		if !bytes.Equal(out, Wire(w.held[i].o)) {
			return w.wrap(fmt.Errorf("another encoding: %s", diffAt(out, Wire(w.held[i].o))))
		}
	}
	return nil
}

func (x *X) w2(s string) byte { return s[x.Choose(len(s))] }

func (w *world) run(depth int, entry func() int) error {
	// the invariant is checked at the end of every history, so that checking it
	// is not itself a part of the longer ones
	depth = 1 + w.x.All(depth)
	for i := 0; i < depth; i++ {
		if err := w.step(entry); err != nil {
			return err
		}
	}
	w.scribble(0xaa)
	if err := w.steady(); err != nil {
		return err
	}
	w.x.State("after", fmt.Sprint(w.log))
	w.x.Outcome("%d nodes held", len(w.held))
	return nil
}

// twin is the input with one byte replaced by another of its kind.
func twin(in []byte, at int) []byte {
	out := append([]byte{}, in...)
	switch c := out[at]; {
	case c >= '0' && c < '9':
		out[at] = c + 1
	case c == '9':
		out[at] = '8'
	case c >= 'a' && c < 'f':
		out[at] = c + 1
	default:
		out[at] = c ^ 1
	}
	return out
}

// nestedReader gives a few bytes at a time, and calls back at one of its reads.
type nestedReader struct {
	data  []byte
	chunk int
	at    map[int]func()
	reads int
}

func (r *nestedReader) Read(p []byte) (int, error) {
	if f := r.at[r.reads]; f != nil {
		f()
	}
	r.reads++
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(r.data), r.chunk)
	copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

// inner is an operation that happens during another one.
func (w *world) inner(fail *error) {
	x := w.x
	set := func(err error) {
		if err != nil && *fail == nil {
			*fail = fmt.Errorf("an operation within another: %w", err)
		}
	}
	nobj := len(historyObjects)
	k := x.All(2*nobj + len(badInputs) + 1)
	switch {
	case k < nobj:
		set(w.decode(historyObjects[k], x.Choose(nEntries-2)))
	case k < 2*nobj:
		o := historyObjects[k-nobj]
		n, err := git.ParseObject(bytes.NewReader(Wire(o)))
		set(err)
		if err != nil {
			return
		}
		w.note("within: encode")
		b, err := encode(n)
		set(err)
		if err == nil && !bytes.Equal(b, Wire(o)) {
			set(fmt.Errorf("another encoding: %s", diffAt(b, Wire(o))))
		}
	case k < 2*nobj+len(badInputs):
		set(w.decodeBad(badInputs[k-2*nobj], 0))
	default:
		if len(w.held) > 0 {
			set(w.steady())
		}
	}
}

func init() {
	dev := func(x *X) func() int { return func() int { return x.Choose(nEntries) } }
	register(&Property{ID: "C15",
		Bounds: map[string]any{"operations": fmt.Sprintf("decode each of %d objects, decode each of %d malformed inputs, overwrite the shared input buffer, decode from a failing reader, encode to a failing writer, encode through another implementation", len(historyObjects), len(badInputs)),
			"depth": "2 (thorough 3) with up to 2 other entry points or details, 3 with any one entry point, 4 (thorough 5) with the ordinary one", "entry points": nEntries, "long histories": "up to 3000 objects, all held"},
		Assume: []string{"buffers are reused by the code under test within the history, if at all"},
		Scenarios: []*Scenario{
			{Name: "histories", Desc: "all sequences of operations", Run: func(x *X) error {
				w := newWorld(x)
				return w.run(pick(4, 5), func() int { return 0 })
			}},
			{Name: "entries", Desc: "all sequences of 2 operations through all entry points", Run: func(x *X) error {
				w := newWorld(x)
				return w.run(2, func() int { return x.All(nEntries) })
			}},
			{Name: "details", Desc: "all sequences of 2 (thorough 3) operations with other entry points and details as deviations", Bound: 2, Thorough: 2, Run: func(x *X) error {
				return newWorld(x).run(pick(2, 3), dev(x))
			}},
			{Name: "same-entry", Desc: "all sequences of 3 operations through one entry point", Run: func(x *X) error {
				e := x.All(nEntries)
				return newWorld(x).run(3, func() int { return e })
			}},
			{Name: "builders", Desc: "one builder filled in several ways, reset and filled again, twice", Run: func(x *X) error {
				w := newWorld(x)
				a, b := historyObjects[x.All(len(historyObjects))], historyObjects[x.All(len(historyObjects))]
				if a.Typ() != b.Typ() {
					x.Outcome("of two types")
					return nil
				}
				repr := x.All(2) == 1
				nb := builderFor(a.Typ(), repr)
				fill := func(o Object) error {
					typ, v := refPlain(o)
					in := w.load(Wire(o))
					var err error
					switch k := x.All(5); k {
					case 0:
						w.note("Decode %.30q", in)
						err = git.Decode(nb, bytes.NewReader(in))
					case 1:
						w.note("fill piece by piece %.30q", in)
						err = put(nb, schemaTypes[typ], v, route{})
					case 2:
						w.note("fill by keys and values %.30q", in)
						err = put(nb, schemaTypes[typ], v, route{1, 0, 1})
					case 3:
						w.note("assign the generic %.30q", in)
						err = nb.AssignNode(generic(v))
					default:
						w.note("assign the parsed %.30q", in)
						var n ipld.Node
						if n, err = git.ParseObject(bytes.NewReader(in)); err == nil {
							if err = w.keep(n, o); err == nil {
								err = nb.AssignNode(n)
							}
						}
					}
					if err != nil {
						return w.wrap(err)
					}
					return w.wrap(w.keep(nb.Build(), o))
				}
				for i, o := range []Object{a, b, a} {
					if i > 0 {
						nb.Reset()
						w.note("Reset")
					}
					if err := fill(o); err != nil {
						return err
					}
					if err := w.steady(); err != nil {
						return err
					}
				}
				w.scribble(0)
				x.State(w.log)
				x.Outcome("%s repr=%v", a.Typ(), repr)
				return w.steady()
			}},
			{Name: "twins", Desc: "an object, another that differs in one byte, and the first again", Run: func(x *X) error {
				all := append(historyObjects[:len(historyObjects):len(historyObjects)], fixedSeeds...)
				a := all[x.All(len(all))]
				b := twin(Wire(a), x.All(len(Wire(a))))
				j := judge(b)
				x.Input(b)
				if j.v != mustAccept || !bytes.Equal(Wire(j.obj), b) {
					x.Outcome("twin is not canonical")
					return nil
				}
				w := newWorld(x)
				e := x.AllInt([]int{0, 1, 2, len(historyEntries) - 1})
				for _, o := range []Object{a, j.obj, a, j.obj} {
					if err := w.decode(o, e); err != nil {
						return err
					}
				}
				w.scribble(0)
				x.Outcome("twin")
				return w.steady()
			}},
			{Name: "twins-long", Desc: "long objects that differ in one byte, at positions around the buffer sizes", Run: func(x *X) error {
				a := fixedLong[x.All(len(fixedLong))]
				in := Wire(a)
				at := (x.All(80)*len(in) + 79) / 80
				if x.All(2) == 1 {
					at = 4090 + at%12
				}
				if at >= len(in) {
					return nil
				}
				b := twin(in, at)
				j := judge(b)
				x.Input(b)
				if j.v != mustAccept || !bytes.Equal(Wire(j.obj), b) {
					return nil
				}
				w := newWorld(x)
				for _, o := range []Object{a, j.obj, a} {
					if err := w.decode(o, 0); err != nil {
						return err
					}
				}
				w.scribble(0)
				return w.steady()
			}},
			{Name: "nested-read", Desc: "an operation while another one waits for its reader", Bound: 1, Thorough: 2, Run: func(x *X) error {
				w := newWorld(x)
				var fail error
				o := historyObjects[x.All(len(historyObjects))]
				in := Wire(o)
				chunk := x.AllInt(pick([]int{16, 1000}, []int{7, 16, 64, 1000}))
				at := x.All((len(in)+chunk-1)/chunk + 1)
				in = append([]byte{}, in...)
				x.Input(in)
				w.note("decode %.30q %d bytes at a time, within read %d:", in, chunk, at)
				var n ipld.Node
				var err error
				r := &nestedReader{data: in, chunk: chunk, at: map[int]func(){at: func() { w.inner(&fail) }}}
				switch x.Choose(4) {
				case 0:
					n, err = git.ParseObject(r)
				case 1:
					r.data = stored(in)
					n, err = git.ParseCompressedObject(r)
				case 2:
					n, err = into(protoFor(o.Typ(), 1), func(na ipld.NodeAssembler) error { return git.Decode(na, r) })
				default:
					n, err = into(protoFor(o.Typ(), 2), func(na ipld.NodeAssembler) error { return git.Decode(na, r) })
				}
				if fail != nil {
					return w.wrap(fail)
				}
				if err != nil {
					return w.wrap(fmt.Errorf("a well-formed %s is rejected: %w", o.Typ(), err))
				}
				if err := w.keep(n, o); err != nil {
					return w.wrap(err)
				}
				return w.steady()
			}},
			{Name: "nested-write", Desc: "an operation while another one waits for its writer", Bound: 1, Thorough: 2, Run: func(x *X) error {
				w := newWorld(x)
				var fail error
				o := historyObjects[x.All(len(historyObjects))]
				if err := w.decode(o, 0); err != nil {
					return err
				}
				n := asImpl(w.held[0].n, x.All(4))
				at := x.All(4)
				calls := 0
				var out []byte
				w.note("encode, within write %d:", at)
				err := git.Encode(n, writerFunc(func(p []byte) (int, error) {
					cut := len(p)
					if calls == at {
						cut = len(p) / 2
						out = append(out, p[:cut]...)
						w.inner(&fail)
						out = append(out, p[cut:]...)
					} else {
						out = append(out, p...)
					}
					calls++
					return len(p), nil
				}))
				if fail != nil {
					return w.wrap(fail)
				}
				if err != nil {
					return w.wrap(err)
				}
				if !bytes.Equal(out, Wire(o)) {
					return w.wrap(fmt.Errorf("another encoding: %s", diffAt(out, Wire(o))))
				}
				return w.steady()
			}},
			{Name: "long-histories", Desc: "many objects one after another, all held to the end", Run: func(x *X) error {
				w := newWorld(x)
				n := x.AllInt([]int{33, 65, 130, 257, 1025, pick(3000, 9000)})
				kind := x.All(6)
				e := x.All(2)
				w.log = []string{"a long history"}
				for i := 0; i < n; i++ {
					var o Object
					k := kind
					if kind == 5 {
						k = i % 5
					}
					q := &Person{fmt.Sprint("N", i), fmt.Sprint("e", i), fmt.Sprint(i), "+0000"}
					switch k {
					case 0:
						o = &Commit{Tree: hexN(i), Parents: []string{hexN(i + 1)}, Author: q, Committer: person1(), Message: fmt.Sprint("m", i)}
					case 1:
						o = &Tag{hexN(i), "commit", fmt.Sprint("v", i), q, "m"}
					case 2:
						o = Tree{{"100644", fmt.Sprint(i), raw(hexN(i))}, {"40000", fmt.Sprint(i + 1), raw(hexN(i + 1))}}
					case 3:
						o = Blob(fmt.Sprint("blob ", i))
					default:
						o = &Commit{Tree: hexN(i), Mergetags: []MergeTag{{hexN(i), "commit", fmt.Sprint("t", i), q, []string{" x"}}}, Sig: &Sig{" ", []string{fmt.Sprint(" s", i)}}, Other: []string{fmt.Sprint("o", i)}, Message: ""}
					}
					if err := w.decode(o, e); err != nil {
						return err
					}
					w.log = w.log[:1]
				}
				w.scribble(0)
				w.x.Outcome("%d objects", n)
				return w.steady()
			}},
			{Name: "repeat", Desc: "the same call many times", Run: func(x *X) error {
				w := newWorld(x)
				o := historyObjects[x.All(len(historyObjects))]
				e := x.All(nEntries)
				for i := 0; i < pick(300, 2000); i++ {
					if err := w.decode(o, e); err != nil {
						return fmt.Errorf("repetition %d: %w", i, err)
					}
					w.log = w.log[:0]
					if len(w.held) > 3 {
						w.held = append(w.held[:1], w.held[2:]...)
					}
					if err := w.steady(); err != nil {
						return fmt.Errorf("repetition %d: %w", i, err)
					}
				}
				return nil
			}},
		}})
}

type writerFunc func(p []byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }
