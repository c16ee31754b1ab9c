package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"
	"time"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/linking"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

// What goroutines do. An op is prepared before any goroutine starts, with the
// nodes that all of them share, and says afterwards whether its result was right.

type shared struct {
	objs  []Object
	nodes []ipld.Node // decoded from objs
	gen   []ipld.Node // generic copies of them
	pipes [2]*pipe
	wait  func(cond func() bool) error
	calm  []bool // programs that are not preempted
}

// A pipe hands over what is written to a reader; a write ends when all of it has
// been read, as with io.Pipe.
type pipe struct {
	mu   sync.Mutex
	s    *shared
	buf  []byte
	shut bool
}

func (p *pipe) locked(f func() bool) func() bool {
	return func() bool {
		p.mu.Lock()
		defer p.mu.Unlock()
		return f()
	}
}

func (p *pipe) Write(b []byte) (int, error) {
	p.locked(func() bool { p.buf = append(p.buf, b...); return true })()
	if err := p.s.wait(p.locked(func() bool { return len(p.buf) == 0 })); err != nil {
		return 0, err
	}
	return len(b), nil
}

func (p *pipe) Read(b []byte) (int, error) {
	if err := p.s.wait(p.locked(func() bool { return len(p.buf) > 0 || p.shut })); err != nil {
		return 0, err
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}

func (p *pipe) Close() error {
	p.locked(func() bool { p.shut = true; return true })()
	return nil
}

// patiently waits in a goroutine of its own.
func patiently(cond func() bool) error {
	for i := 0; !cond(); i++ {
		if i > 200_000 {
			return errors.New("deadlock: the other end of a pipe never comes")
		}
		time.Sleep(100 * time.Microsecond)
	}
	return nil
}

type op struct {
	name string
	uses int // a shared node, or -1
	run  func(s *shared, yield func()) error
}

// concObjects are small, of every type, and different in every part.
var concObjects = fix([]Object{
	&Commit{Tree: hexB, Parents: []string{hexA}, Author: &Person{"A B", "c", "1", "+0"}, Mergetags: []MergeTag{{hexA, "tag", "w", &Person{"M", "m", "3", "-1"}, []string{" mm"}}}, Sig: &Sig{" ", []string{" s"}}, Other: []string{"o"}, Message: "first\n"},
	&Commit{Tree: hexA, Parents: []string{hexB}, Committer: &Person{"Q R", "t", "2", "-0"}, Message: "2nd\n"},
	&Tag{hexA, "commit", "v1", &Person{"T U", "v", "5", "+7"}, "tag one\n"},
	&Tag{hexB, "tree", "v22", nil, "two"},
	Tree{{"40000", "d", shas[4]}, {"100755", "x", shas[1]}},
	Tree{{"100644", "d", shas[2]}},
	Blob("blob one"),
	Blob("b2"),
})

const smallObjects = 8

// largeSizes are numbers of entries or list elements.
var largeSizes = around([]int{3, 9, 17, 33, 65, 129, 257, 1025}, 1100)

func init() {
	var os []Object
	for _, n := range largeSizes {
		t := Tree{}
		c := &Commit{Tree: hexA, Author: person1(), Message: "m\n"}
		for i := 0; i < n; i++ {
			t = append(t, Entry{"100644", fmt.Sprintf("n%04d", i*7%n), raw(hexN(i))})
			c.Parents = append(c.Parents, hexN(i))
			c.Other = append(c.Other, fmt.Sprintf("h%d v", i))
		}
		seen := map[string]bool{}
		for i := range t {
			if seen[t[i].Name] {
				t[i].Name += fmt.Sprint("x", i)
			}
			seen[t[i].Name] = true
		}
		os = append(os, t, c)
	}
	os = append(os, Blob(rep("0123456789", 1000)), &Tag{hexB, "commit", rep("v", 5000), &Person{rep("name ", 900) + "x", "e", "7", "+1"}, rep("long message\n", 500)},
		&Commit{Tree: hexB, Author: &Person{rep("n", 4500), "e", "1", "+1"}, Mergetags: []MergeTag{{hexA, "tag", "w", person1(), lines(" l", 300)}}, Sig: &Sig{" ", lines(" s", 300)}, Message: rep("m\n", 3000)})
	concObjects = append(concObjects, fix(os)...)
}

func newShared(ps [][]op) *shared {
	s := &shared{objs: concObjects, nodes: make([]ipld.Node, len(concObjects)), gen: make([]ipld.Node, len(concObjects)), wait: patiently}
	for i := range s.pipes {
		s.pipes[i] = &pipe{s: s}
	}
	for i, o := range s.objs {
		used := false
		for _, p := range ps {
			for _, q := range p {
				used = used || q.uses == i
			}
		}
		if !used {
			continue
		}
		n, err := git.ParseObject(bytes.NewReader(Wire(o)))
		if err != nil {
			panic(fmt.Errorf("a well-formed %s is rejected: %w", o.Typ(), err))
		}
		s.nodes[i], s.gen[i] = n, genericOf(n)
	}
	return s
}

type yieldReader struct {
	r     io.Reader
	n     int
	yield func()
}

func (y yieldReader) Read(p []byte) (int, error) {
	y.yield()
	return y.r.Read(p[:min(len(p), y.n)])
}

type yieldWriter struct {
	w     io.Writer
	yield func()
}

// Write looks at its argument twice, as a slow device would.
func (y yieldWriter) Write(p []byte) (int, error) {
	h := len(p) / 2
	y.w.Write(p[:h])
	y.yield()
	y.w.Write(p[h:])
	return len(p), nil
}

func gotNode(n ipld.Node, err error, o Object) error {
	if err != nil {
		return fmt.Errorf("a well-formed %s is rejected: %w", o.Typ(), err)
	}
	return expectNode(n, o)
}

func decodeOp(i int) op {
	o := concObjects[i]
	return op{fmt.Sprintf("decode %s %d", o.Typ(), i), -1, func(s *shared, y func()) error {
		n, err := git.ParseObject(yieldReader{bytes.NewReader(Wire(o)), 24, y})
		return gotNode(n, err, o)
	}}
}

func encodeOp(i int, gen bool) op {
	return op{fmt.Sprintf("encode the shared %s %d, generic %v", concObjects[i].Typ(), i, gen), i, func(s *shared, y func()) error {
		var b bytes.Buffer
		n := s.nodes[i]
		if gen {
			n = s.gen[i]
		}
		if err := git.Encode(n, yieldWriter{&b, y}); err != nil {
			return err
		}
		if !bytes.Equal(b.Bytes(), Wire(s.objs[i])) {
			return fmt.Errorf("encoding a shared %s gives other bytes: %s", s.objs[i].Typ(), diffAt(b.Bytes(), Wire(s.objs[i])))
		}
		return nil
	}}
}

func readOp(i int) op {
	return op{fmt.Sprintf("read the shared %s %d", concObjects[i].Typ(), i), i, func(s *shared, y func()) error {
		if err := expectNode(s.nodes[i], s.objs[i]); err != nil {
			return err
		}
		_, v := refPlain(s.objs[i])
		if m, ok := v.([]kv); ok {
			for _, e := range m {
				got, err := s.nodes[i].LookupByString(e.k)
				if err != nil {
					return err
				}
				if _, err := s.nodes[i].LookupByNode(basicnode.NewString(e.k)); err != nil {
					return err
				}
				d, err := dump(got, false)
				if err != nil {
					return err
				}
				if w := rendered(e.v); d != w {
					return fmt.Errorf("%q is %s, expected %s", e.k, clip(d), clip(w))
				}
			}
		}
		return nil
	}}
}

func badOp(in []byte) op {
	return op{fmt.Sprintf("decode malformed %.20q", in), -1, func(s *shared, y func()) error {
		if _, err := git.ParseObject(yieldReader{bytes.NewReader(in), 40, y}); err == nil {
			return errors.New("malformed input is accepted")
		}
		return nil
	}}
}

// oddOp decodes what need not be accepted, but gives the same alone and beside others.
func oddOp(name string, in []byte) op {
	run := func(y func()) string {
		n, err := git.ParseObject(yieldReader{bytes.NewReader(in), 40, y})
		if err != nil {
			return "an error"
		}
		d, err := dump(n, false)
		return fmt.Sprint(d, err)
	}
	out := os.Stdout // where the decoder reports what it does not know
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	alone := run(func() {})
	os.Stdout.Close()
	os.Stdout = out
	return op{"decode " + name, -1, func(s *shared, y func()) error {
		if got := run(y); got != alone {
			return fmt.Errorf("%s decodes to %s, alone to %s", name, clip(got), clip(alone))
		}
		return nil
	}}
}

func viaOp(i int, e int) op {
	o := concObjects[i]
	ep := entryPoints[e]
	return op{ep.name + " " + o.Typ(), -1, func(s *shared, y func()) error {
		n, err := ep.run(Wire(o), o.Typ())
		return gotNode(n, err, o)
	}}
}

func copyOp(i int) op {
	o := concObjects[i]
	return op{fmt.Sprintf("copy the shared %s %d into a new node", o.Typ(), i), i, func(s *shared, y func()) error {
		nb := protoFor(o.Typ(), 0).NewBuilder()
		if err := nb.AssignNode(s.nodes[i]); err != nil {
			return err
		}
		if err := expectNode(nb.Build(), o); err != nil {
			return err
		}
		nb = protoFor(o.Typ(), 1).NewBuilder()
		if err := nb.AssignNode(s.gen[i]); err != nil {
			return err
		}
		return expectNode(nb.Build(), o)
	}}
}

func storeOp(i int) op {
	o := concObjects[i]
	return op{fmt.Sprintf("load %s %d through a link system", o.Typ(), i), -1, func(s *shared, y func()) error {
		l := idOf(Wire(o))
		ls := memSystem(map[string][]byte{l.Binary(): Wire(o)})
		n, err := ls.Load(linking.LinkContext{Ctx: context.Background()}, l, protoFor(o.Typ(), 2))
		return gotNode(n, err, o)
	}}
}

// withinOp encodes or decodes one object from within the writer or reader of
// another, as a writer that files what it is given does.
func withinOp(i, j int, enc bool) op {
	o := concObjects[i]
	inner := func(s *shared) error {
		var b bytes.Buffer
		if err := git.Encode(s.nodes[i], &b); err != nil {
			return err
		}
		if !bytes.Equal(b.Bytes(), Wire(o)) {
			return fmt.Errorf("the inner encoding gives other bytes: %s", diffAt(b.Bytes(), Wire(o)))
		}
		n, err := git.ParseObject(bytes.NewReader(Wire(concObjects[j])))
		return gotNode(n, err, concObjects[j])
	}
	return op{fmt.Sprintf("within another call %s %d %s %d, encoding %v", o.Typ(), i, concObjects[j].Typ(), j, enc), i, func(s *shared, y func()) error {
		if enc {
			var b bytes.Buffer
			err := git.Encode(s.nodes[i], funcWriter(func(p []byte) (int, error) {
				if err := inner(s); err != nil {
					return 0, err
				}
				y()
				return b.Write(p)
			}))
			if err != nil {
				return err
			}
			if !bytes.Equal(b.Bytes(), Wire(o)) {
				return fmt.Errorf("the outer encoding gives other bytes: %s", diffAt(b.Bytes(), Wire(o)))
			}
			return nil
		}
		r := bytes.NewReader(Wire(o))
		n, err := git.ParseObject(funcReader(func(p []byte) (int, error) {
			if err := inner(s); err != nil {
				return 0, err
			}
			y()
			return r.Read(p)
		}))
		return gotNode(n, err, o)
	}}
}

type funcWriter func(p []byte) (int, error)

func (f funcWriter) Write(p []byte) (int, error) { return f(p) }

type funcReader func(p []byte) (int, error)

func (f funcReader) Read(p []byte) (int, error) { return f(p) }

// intoPipe encodes into a pipe, fromPipe decodes what comes out of it.
func intoPipe(i, k int) op {
	return op{fmt.Sprintf("encode %s %d into pipe %d", concObjects[i].Typ(), i, k), i, func(s *shared, y func()) error {
		defer s.pipes[k].Close()
		return git.Encode(s.nodes[i], s.pipes[k])
	}}
}

func fromPipe(i, k int) op {
	o := concObjects[i]
	return op{fmt.Sprintf("decode %s %d from pipe %d", o.Typ(), i, k), -1, func(s *shared, y func()) error {
		n, err := git.ParseObject(s.pipes[k])
		return gotNode(n, err, o)
	}}
}

// lookOp looks at a few parts of a shared node.
func lookOp(i int) op {
	o := concObjects[i]
	return op{fmt.Sprintf("look into the shared %s %d", o.Typ(), i), i, func(s *shared, y func()) error {
		n := s.nodes[i]
		_, v := refPlain(o)
		m := v.([]kv)
		some := func(n ipld.Node, m []kv) error {
			for _, e := range []kv{m[len(m)-1], m[0]} {
				got, err := n.LookupByString(e.k)
				if err != nil {
					return fmt.Errorf("%q is not found: %w", e.k, err)
				}
				if o.Typ() == "tree" {
					d, err := dump(got, false)
					if err != nil {
						return err
					}
					if w := rendered(e.v); d != w {
						return fmt.Errorf("%q is %s, expected %s", e.k, clip(d), clip(w))
					}
				}
			}
			if _, err := n.LookupByNode(basicnode.NewString(m[len(m)/2].k)); err != nil {
				return err
			}
			if _, err := n.LookupByString("not there"); err == nil {
				return errors.New("an entry is found that is not there")
			}
			if k, _, err := n.MapIterator().Next(); err != nil {
				return err
			} else if _, err := k.AsString(); err != nil {
				return err
			}
			return nil
		}
		if err := some(n, m); err != nil {
			return err
		}
		if o.Typ() == "tree" {
			return some(reprOf(n), m)
		}
		for _, f := range []string{"parents", "other"} {
			l, err := n.LookupByString(f)
			if err != nil {
				return err
			}
			want := m[get(m, f)].v.([]any)
			if l.Length() != int64(len(want)) {
				return fmt.Errorf("%d %s, expected %d", l.Length(), f, len(want))
			}
			for _, i := range []int64{int64(len(want)) - 1, 0} {
				got, err := l.LookupByIndex(i)
				if err != nil {
					return err
				}
				d, err := dump(got, false)
				if err != nil {
					return err
				}
				if w := rendered(want[i]); d != w {
					return fmt.Errorf("%s %d is %s, expected %s", f, i, clip(d), clip(w))
				}
			}
		}
		return nil
	}}
}

// concOps is the alphabet of what a goroutine can do.
var concOps = func() []op {
	var ops []op
	for i := 0; i < smallObjects; i++ {
		ops = append(ops, decodeOp(i), encodeOp(i, false))
	}
	for _, i := range []int{0, 2, 4, 6} {
		ops = append(ops, readOp(i), encodeOp(i, true), copyOp(i))
	}
	ops = append(ops, badOp(badInputs[5]), badOp(badInputs[8]), badOp(badInputs[4]), badOp(badInputs[1]), viaOp(1, 2), viaOp(3, 5), storeOp(5))
	ops = append(ops, oddOp("a tag with more headers", wire("tag", []byte("object "+hexA+"\ntype commit\ntag v\nmore 1\ntagger A <b> 1 +0\ngpgsig-sha256 x\n y\n\nm\n"))))
	ops = append(ops, withinOp(3, 5, true), withinOp(5, 7, false))
	return ops
}()

// mainOps are the operations that touch the most code, one or two of each sort.
var mainOps = func() []int {
	var out []int
	for i, o := range concOps {
		switch o.name {
		case "decode commit 0", "decode commit 1", "decode tag 2", "decode tree 4", "decode blob 6", "decode blob 7",
			"encode the shared commit 1, generic false", "encode the shared tag 2, generic false", "encode the shared tree 4, generic false", "encode the shared tree 4, generic true", "read the shared tree 4", "decode tag 3", "decode tree 5":
			out = append(out, i)
		}
	}
	return out
}()

// tinyOps are short enough for two preemptions on every change.
var tinyOps = func() []int {
	var out []int
	for i, o := range concOps {
		switch o.name {
		case "decode tag 3", "decode tree 5", "decode blob 7", "encode the shared tag 3, generic false", "encode the shared tree 5, generic false":
			out = append(out, i)
		}
	}
	return out
}()

// controlled runs the programs (each a sequence of operations) under a scheduler
// that takes every decision from x. It is nil where the code is not instrumented.
var controlled func(x *X, s *shared, programs [][]op) error

func programsOf(x *X, n, length int, ops []int) ([][]op, []string) {
	var ps [][]op
	var names []string
	low := 0
	for t := 0; t < n; t++ {
		var p []op
		for k := 0; k < length; k++ {
			i := x.All(len(ops))
			if k == 0 {
				// goroutines are interchangeable: take them in order
				if i < low {
					return nil, nil
				}
				low = i
			}
			p = append(p, concOps[ops[i]])
			names = append(names, fmt.Sprintf("%d: %s", t, concOps[ops[i]].name))
		}
		ps = append(ps, p)
	}
	return ps, names
}

func concRun(x *X, threads, length int, ops []int) error {
	ps, names := programsOf(x, threads, length, ops)
	if ps == nil {
		x.skipped = true
		return nil
	}
	if !x.myShard() {
		x.skipped = true
		return nil
	}
	x.Input([]byte(fmt.Sprintf("%q", names)))
	if controlled == nil {
		return nil
	}
	if err := controlled(x, newShared(ps), ps); err != nil {
		return fmt.Errorf("goroutines %q: %w", names, err)
	}
	return nil
}

// myShard divides what has been chosen so far among the processes.
func (x *X) myShard() bool { return x.sc.Split || inShare(x.choices()) }

// concPrograms is concRun for given programs; calm ones are not preempted.
func concPrograms(x *X, ps [][]op, calm ...bool) error {
	if !x.myShard() {
		x.skipped = true
		return nil
	}
	var names []string
	for t, p := range ps {
		for _, o := range p {
			names = append(names, fmt.Sprintf("%d: %s", t, o.name))
		}
	}
	x.Input([]byte(fmt.Sprintf("%q", names)))
	if controlled == nil {
		return nil
	}
	sh := newShared(ps)
	sh.calm = calm
	if err := controlled(x, sh, ps); err != nil {
		return fmt.Errorf("goroutines %q: %w", names, err)
	}
	return nil
}

func allOps() []int {
	var out []int
	for i := range concOps {
		out = append(out, i)
	}
	return out
}

func init() {
	register(&Property{ID: "C16", Shards: 8,
		Bounds: map[string]any{"operations": len(concOps), "goroutines": "2 and 3", "preemptions": "1 for all pairs, 2 for pairs of the main operations (thorough), at every statement of the package and every read and write", "more": "encode into a pipe that another goroutine decodes; a call from within a writer or reader that waits for another goroutine; large shared nodes; a small object's call preempted anywhere by a large one's", "race detector": "all pairs, and all pairs of main operations twice in a row"},
		Assume: []string{"within one statement a goroutine is not interrupted; unsynchronised access within a statement is what the pass under the race detector finds", "packages other than this one run between two scheduling points"},
		Scenarios: []*Scenario{
			{Name: "pairs", Serial: true, Split: true, Desc: "two goroutines, every pair of operations", Bound: 1, Thorough: 1, Run: func(x *X) error {
				return concRun(x, 2, 1, allOps())
			}},
			{Name: "pairs-deep", Serial: true, Split: true, Desc: "two goroutines, pairs of main operations, two preemptions", Bound: 2, Thorough: 2, Run: func(x *X) error {
				return concRun(x, 2, 1, pick(tinyOps, mainOps))
			}},
			{Name: "within", Serial: true, Desc: "calls made from within the writer or reader of another call, beside another goroutine that does so too, or does anything else", Bound: 0, Thorough: 1, Run: func(x *X) error {
				i, j := x.All(smallObjects), x.All(smallObjects)
				ps := [][]op{{withinOp(i, j, x.All(2) == 1)}}
				switch k := x.All(len(mainOps) + 3); {
				case k < len(mainOps):
					ps = append(ps, []op{concOps[mainOps[k]]})
				case k < len(mainOps)+2:
					ps = append(ps, []op{withinOp(j, i, k == len(mainOps))})
				}
				return concPrograms(x, ps)
			}},
			{Name: "pipes", Serial: true, Desc: "one goroutine encodes into a pipe from which another decodes, alone or beside a third or a second such pair", Bound: 0, Thorough: 1, Run: func(x *X) error {
				i := x.AllInt(pick([]int{1, 3, 5, 7}, []int{0, 1, 2, 3, 4, 5, 6, 7}))
				third := pick(tinyOps, mainOps)
				ps := [][]op{{intoPipe(i, 0)}, {fromPipe(i, 0)}}
				switch k := x.All(len(third) + 1 + smallObjects); {
				case k < len(third):
					ps = append(ps, []op{concOps[third[k]]})
				case k > len(third):
					j := k - len(third) - 1
					ps = append(ps, []op{intoPipe(j, 1)}, []op{fromPipe(j, 1)})
				}
				return concPrograms(x, ps)
			}},
			{Name: "pipes-deep", Serial: true, Split: true, Desc: "one goroutine encodes into a pipe from which another decodes", Bound: 1, Thorough: 2, Run: func(x *X) error {
				i := x.AllInt([]int{1, 3, 5, 7})
				return concPrograms(x, [][]op{{intoPipe(i, 0)}, {fromPipe(i, 0)}})
			}},
			{Name: "large", Serial: true, Split: true, Desc: "two goroutines look into one shared node of many sizes", Bound: 1, Thorough: 2, Run: func(x *X) error {
				i := smallObjects + x.All(2*len(largeSizes))
				if !thorough() && len(concObjects[i].Body()) > 30_000 {
					x.skipped = true
					return nil
				}
				return concPrograms(x, [][]op{{lookOp(i)}, {lookOp(i)}})
			}},
			{Name: "beside-large", Serial: true, Split: true, Desc: "a goroutine that is busy with a small object, preempted anywhere by one that is busy with a large one", Bound: 1, Thorough: 2, Run: func(x *X) error {
				large := smallObjects + 2*len(largeSizes)
				i := smallObjects + x.All(len(concObjects)-smallObjects)
				if !thorough() && i < large && largeSizes[(i-smallObjects)/2] != 33 && largeSizes[(i-smallObjects)/2] != 129 {
					x.skipped = true
					return nil
				}
				big := []op{encodeOp(i, false), decodeOp(i), encodeOp(i, true), copyOp(i)}[x.All(pick(2, 4))]
				small := append(tinyOps[:len(tinyOps):len(tinyOps)], pick(nil, mainOps)...)
				k := x.All(len(small) + 2)
				o := encodeOp(0, false)
				if k == 1 {
					o = decodeOp(0)
				} else if k > 1 {
					o = concOps[small[k-2]]
				}
				return concPrograms(x, [][]op{{o}, {big}}, false, true)
			}},
			{Name: "races-large", Serial: true, Race: true, Desc: "goroutines look into, read, encode and copy one shared node of many sizes, under the race detector", Run: func(x *X) error {
				i := smallObjects + x.All(2*len(largeSizes))
				k := x.All(4)
				ps := [][]op{{lookOp(i)}, {lookOp(i)}, {lookOp(i), encodeOp(i, false)}, {encodeOp(i, k == 1)}}
				switch k {
				case 2:
					ps = append(ps, []op{copyOp(i)}, []op{decodeOp(i)})
				case 3:
					ps = [][]op{{copyOp(i)}, {copyOp(i)}}
				}
				if len(concObjects[i].Body()) < 20_000 {
					ps = append(ps, []op{readOp(i)})
				}
				x.Input([]byte(fmt.Sprint("large ", i, " ", k)))
				return free(newShared(ps), ps, 1)
			}},
			{Name: "races-pipes", Serial: true, Race: true, Desc: "pairs of goroutines that encode into a pipe and decode from it, and calls within calls, under the race detector", Run: func(x *X) error {
				i, j := x.All(smallObjects), x.All(smallObjects)
				ps := [][]op{{intoPipe(i, 0)}, {fromPipe(i, 0)}, {intoPipe(j, 1)}, {fromPipe(j, 1)}, {withinOp(i, j, true)}, {withinOp(j, i, false)}}
				x.Input([]byte(fmt.Sprint("pipes ", i, j)))
				return free(newShared(ps), ps, 1)
			}},
			{Name: "sequences", Serial: true, Desc: "two goroutines with two operations each", Bound: 0, Thorough: 1, Run: func(x *X) error {
				return concRun(x, 2, 2, mainOps)
			}},
			{Name: "triples", Serial: true, Desc: "three goroutines", Bound: 0, Thorough: 1, Run: func(x *X) error {
				return concRun(x, 3, 1, mainOps)
			}},
			{Name: "races", Serial: true, Race: true, Desc: "every pair of operations in free goroutines under the race detector", Run: func(x *X) error {
				ps, names := programsOf(x, 2, 1, allOps())
				if ps == nil {
					return nil
				}
				x.Input([]byte(fmt.Sprintf("%q", names)))
				return free(newShared(ps), ps, pick(4, 20))
			}},
			{Name: "races-many", Serial: true, Race: true, Desc: "all operations at once in free goroutines under the race detector", Run: func(x *X) error {
				var ps [][]op
				for _, o := range concOps {
					ps = append(ps, []op{o, concOps[x.All(len(concOps))]})
					if len(x.points) >= 2 {
						break
					}
				}
				for _, o := range concOps {
					ps = append(ps, []op{o})
				}
				return free(newShared(ps), ps, 1)
			}},
		}})
}

// free runs the programs in goroutines of their own, unscheduled.
func free(s *shared, programs [][]op, times int) error {
	errs := make([]error, len(programs))
	for r := 0; r < times; r++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, p := range programs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if v := recover(); v != nil {
						errs[i] = fmt.Errorf("panic: %v", v)
					}
				}()
				<-start
				for _, o := range p {
					if err := o.run(s, func() {}); err != nil {
						errs[i] = fmt.Errorf("%s: %w", o.name, err)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	return errors.Join(errs...)
}
