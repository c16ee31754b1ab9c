package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"strconv"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
	"github.com/ipld/go-ipld-prime/traversal"
	"github.com/ipld/go-ipld-prime/traversal/selector"
	"github.com/ipld/go-ipld-prime/traversal/selector/builder"
)

// A graph is a set of objects by id, twice: as the reference sees them, and as
// the link system serves them.
type graph struct {
	objs  map[string]Object // by raw sha1
	store map[string][]byte // by link
	names map[string]string
}

func newGraph() *graph {
	return &graph{map[string]Object{}, map[string][]byte{}, map[string]string{}}
}

// add stores an object and returns its id in hex.
func (g *graph) add(name string, o Object) string {
	l := idOf(Wire(o))
	id := l.Binary()[4:]
	g.objs[id] = o
	g.store[l.Binary()] = Wire(o)
	g.names[id] = name
	return hex.EncodeToString([]byte(id))
}

func (g *graph) link(hexs string) cidlink.Link { return gitLink(hexs).(cidlink.Link) }

var errNoPath = fmt.Errorf("no such path")

// follow loads links as long as there are any, according to the reference.
func (g *graph) follow(v any) (any, error) {
	for {
		l, ok := v.(ipld.Link)
		if !ok {
			return v, nil
		}
		o, ok := g.objs[l.Binary()[4:]]
		if !ok {
			return nil, errNoPath
		}
		_, v = refPlain(o)
	}
}

// at is the value at one segment of v, according to the reference.
func (g *graph) at(v any, seg string) (any, error) {
	switch v := v.(type) {
	case []kv:
		for _, e := range v {
			if e.k == seg {
				return g.follow(e.v)
			}
		}
	case []any:
		i, err := strconv.ParseInt(seg, 10, 64)
		if err == nil && i >= 0 && i < int64(len(v)) {
			return g.follow(v[i])
		}
	}
	return nil, errNoPath
}

func keysOf(v any) []string {
	var out []string
	switch v := v.(type) {
	case []kv:
		for _, e := range v {
			out = append(out, e.k)
		}
	case []any:
		for i := range v {
			out = append(out, strconv.Itoa(i))
		}
	}
	return out
}

// rendered is a plain value as dump renders nodes.
func rendered(v any) string {
	s, err := dump(generic(v), false)
	must(err)
	return s
}

var wrongSegs = []string{"x", "", "-1", "99", "Tree", "tree", "hash", "object", "parents", "18446744073709551616", "encoding"}

func (g *graph) progress(typed bool) traversal.Progress {
	cfg := &traversal.Config{Ctx: context.Background(), LinkSystem: memSystem(g.store)}
	cfg.LinkTargetNodePrototypeChooser = func(_ datamodel.Link, lc linking.LinkContext) (datamodel.NodePrototype, error) {
		if typed {
			if t, ok := lc.LinkNode.(schema.TypedLinkNode); ok {
				return t.LinkTargetNodePrototype(), nil
			}
		}
		return basicnode.Prototype.Any, nil
	}
	return traversal.Progress{Cfg: cfg}
}

// path follows a path segment by segment as the choices say, then asks the real
// code for the whole path.
func (g *graph) path(x *X, root string, depth int, strict bool, wrong []string) error {
	return g.pathBy(x, root, depth, strict, wrong, false)
}

// pathBy is path; ints says whether numbers are given as numbers.
func (g *graph) pathBy(x *X, root string, depth int, strict bool, wrong []string, ints bool) error {
	return g.follows(x, root, strict, ints, func(v any, n int) (string, bool) {
		if n == depth {
			return "", false
		}
		ks := keysOf(v)
		k := x.All(len(ks) + 2)
		switch {
		case k == 0:
			return "", false
		case k <= len(ks):
			return ks[k-1], true
		}
		return x.AllStr(wrong), true
	})
}

// along follows one path.
func (g *graph) along(x *X, root string, segs []string) error {
	return g.follows(x, root, true, false, func(_ any, n int) (string, bool) {
		if n == len(segs) {
			return "", false
		}
		return segs[n], true
	})
}

// follows goes where next leads, given the value it is at and how many segments have
// been followed, until next says stop or there is no such path in the graph.
func (g *graph) follows(x *X, root string, strict, ints bool, next func(v any, n int) (string, bool)) error {
	typed := x.All(2) == 1
	impl := x.All(3)
	ls := memSystem(g.store)
	rl := g.link(root)
	rootObj := g.objs[rl.Binary()[4:]]
	n, err := ls.Load(linking.LinkContext{Ctx: context.Background()}, rl, protoFor(rootObj.Typ(), impl))
	if err != nil {
		return fmt.Errorf("the %s cannot be loaded: %w", rootObj.Typ(), err)
	}
	_, v := refPlain(rootObj)
	var segs []datamodel.PathSegment
	names := ""
	absentOK := false
	want := error(nil)
	for {
		s, ok := next(v, len(segs))
		if !ok {
			break
		}
		seg := datamodel.PathSegmentOfString(s)
		if i, err := strconv.ParseInt(s, 10, 64); ints && err == nil && i >= 0 && strconv.FormatInt(i, 10) == s {
			seg = datamodel.PathSegmentOfInt(i)
		}
		segs = append(segs, seg)
		names += "/" + s
		// an optional field may be absent from a typed commit
		absentOK = s == "encoding"
		if v, want = g.at(v, s); want != nil {
			break
		}
	}
	x.Input([]byte(names))
	pr := g.progress(typed)
	got, err := pr.Get(n, datamodel.NewPathNocopy(segs))
	if by, e := stepwise(pr, n, segs); (e == nil) != (err == nil) {
		return fmt.Errorf("%s from a %s: as a path %v, segment by segment %v", names, rootObj.Typ(), err, e)
	} else if e == nil && by.IsAbsent() != got.IsAbsent() {
		return fmt.Errorf("%s from a %s is absent either as a path or segment by segment", names, rootObj.Typ())
	} else if e == nil && !by.IsAbsent() {
		a, e1 := dump(by, false)
		b, e2 := dump(got, false)
		if e1 != nil || e2 != nil || a != b {
			return fmt.Errorf("%s from a %s is %s as a path, and segment by segment %s", names, rootObj.Typ(), clip(b), clip(a))
		}
	}
	what := fmt.Sprintf("%s from a %s (%s, typed links %v)", names, rootObj.Typ(), implName[impl], typed)
	switch {
	case want != nil && err == nil:
		if absentOK && got.IsAbsent() {
			x.Outcome("absent")
			return nil
		}
		return fmt.Errorf("%s resolves, though the graph has no such path", what)
	case want != nil:
		x.Outcome("no such path")
		return nil
	case err != nil:
		if !strict && typed {
			x.Outcome("unexpected type refused")
			return nil
		}
		return fmt.Errorf("%s does not resolve: %w", what, err)
	}
	d, err := dump(got, false)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if d != rendered(v) {
		return fmt.Errorf("%s is %s, the graph has %s", what, clip(d), clip(rendered(v)))
	}
	x.Outcome("resolved after %d segments", len(segs))
	return nil
}

// stepwise resolves a path with LookupBySegment, loading each link it meets.
func stepwise(pr traversal.Progress, n ipld.Node, segs []datamodel.PathSegment) (ipld.Node, error) {
	for _, s := range segs {
		v, err := n.LookupBySegment(s)
		if err != nil {
			return nil, err
		}
		for v.Kind() == datamodel.Kind_Link {
			l, err := v.AsLink()
			if err != nil {
				return nil, err
			}
			p, err := pr.Cfg.LinkTargetNodePrototypeChooser(l, linking.LinkContext{Ctx: context.Background(), LinkNode: v, ParentNode: n})
			if err != nil {
				return nil, err
			}
			if v, err = pr.Cfg.LinkSystem.Load(linking.LinkContext{Ctx: context.Background()}, l, p); err != nil {
				return nil, err
			}
		}
		n = v
	}
	return n, nil
}

// visits lists every path below v, in no particular order.
func (g *graph) visits(path string, v any, depth int, out map[string]string) {
	out[path] = rendered(v)
	if depth == 0 {
		return
	}
	for _, k := range keysOf(v) {
		if w, err := g.at(v, k); err == nil {
			g.visits(path+"/"+k, w, depth-1, out)
		}
	}
}

// standard is a small repository: a merge commit with a signature and a mergetag,
// trees in trees, a submodule, and a tag of a tag.
func standard(x *X) (g *graph, roots []string) {
	g = newGraph()
	b1, b2 := g.add("blob", Blob("one\n")), g.add("blob2", Blob(""))
	name := func() string {
		return x.Str([]string{"file", "tree", "object", "hash", "0", "a b", "parents", "é", "-1", "message", "mode", ".."})
	}
	mode := func() string { return x.Str([]string{"100644", "100755", "120000", "40000", "160000", "", "0"}) }
	deep := g.add("deep", Tree{{mode(), name(), raw(b1)}})
	sub := g.add("subtree", Tree{{"40000", "d" + name(), raw(deep)}, {mode(), "z", raw(b2)}})
	p2 := person1()
	other := g.add("submodule commit", &Commit{Tree: deep, Message: "in a submodule\n"})
	top := g.add("tree", Tree{{"100644", name(), raw(b1)}, {"160000", "module", raw(other)}, {"160000", "nowhere", raw(hexN(77))}, {"40000", "sub", raw(sub)}})
	first := g.add("first commit", &Commit{Tree: sub, Author: p2, Committer: p2, Message: "first\n"})
	t1 := g.add("tag", &Tag{first, "commit", "v1", p2, "tagged\n"})
	second := g.add("second commit", &Commit{Tree: top, Parents: []string{first, other}, Author: p2, Committer: p2, Mergetags: []MergeTag{{first, "commit", "v1", p2, []string{" tagged"}}}, Sig: &Sig{" ", []string{" s"}}, Other: []string{"o p"}, Message: "second\n"})
	t2 := g.add("tag of a tag", &Tag{t1, "tag", "v2", nil, ""})
	t3 := g.add("tag of the second commit", &Tag{second, "commit", "v3", p2, "m"})
	tt := g.add("tag of a tree", &Tag{top, "tree", "v4", p2, "m"})
	tb := g.add("tag of a blob", &Tag{b1, "blob", "v5", p2, "m"})
	return g, []string{second, t3, t2, top, tt, tb, first, b1}
}

// crossed is a graph in which a link may lead anywhere.
func crossed(x *X) (g *graph, roots []string) {
	g = newGraph()
	blob := g.add("blob", Blob("b"))
	tree := g.add("tree", Tree{{"100644", "f", raw(blob)}})
	commit := g.add("commit", &Commit{Tree: tree, Message: "c\n"})
	tag := g.add("tag", &Tag{commit, "commit", "v", nil, "t"})
	empty := g.add("empty tree", Tree{})
	anyOf := func() string {
		return x.AllStr([]string{tree, blob, commit, tag, empty, hexN(3)})
	}
	switch x.All(5) {
	case 0:
		return g, []string{g.add("c", &Commit{Tree: anyOf(), Parents: []string{commit}, Message: "x\n"})}
	case 1:
		return g, []string{g.add("c", &Commit{Tree: tree, Parents: []string{anyOf(), anyOf()}, Message: "x\n"})}
	case 2:
		return g, []string{g.add("t", &Tag{anyOf(), x.AllStr([]string{"commit", "tree", "blob", "tag", "x"}), "v", nil, "x"})}
	case 3:
		return g, []string{g.add("t", Tree{{x.AllStr([]string{"40000", "100644", "160000"}), "e", raw(anyOf())}, {"100644", "f", raw(anyOf())}})}
	default:
		return g, []string{g.add("c", &Commit{Tree: tree, Mergetags: []MergeTag{{anyOf(), "commit", "v", nil, []string{" m"}}}, Message: "x\n"})}
	}
}

func init() {
	register(&Property{ID: "C19",
		Bounds: map[string]any{"graph": "14 objects: two commits and a submodule's, nested trees, blobs, tags of a commit, tag, tree and blob; entry names and modes with up to 1 (thorough 2) deviations", "paths": "all existing paths up to 9 (thorough 12) segments from 8 roots, and each left at any point by any of 11 wrong segments (3 and 4 in the scenarios names and crossed, quick)", "loading": "typed, representation and generic roots; links loaded as the link's own prototype or as anything", "crossed links": "every link of a commit, tag and tree leading to every type of object or to none"},
		Scenarios: []*Scenario{
			{Name: "paths", Desc: "all paths through a small repository", Thorough: 1, Run: func(x *X) error {
				g, roots := standard(x)
				return g.path(x, roots[x.All(len(roots))], pick(9, 12), true, wrongSegs)
			}},
			{Name: "names", Desc: "all paths through trees whose entries have unusual names and modes", Bound: 1, Thorough: 2, Run: func(x *X) error {
				g, roots := standard(x)
				return g.path(x, roots[x.AllInt([]int{3, 6})], pick(6, 8), true, pick(wrongSegs[3:6], wrongSegs))
			}},
			{Name: "numbered", Desc: "trees whose entries have numbers as names, in another order and with gaps; segments as text and as numbers", Run: func(x *X) error {
				g := newGraph()
				b := []string{g.add("a", Blob("a")), g.add("b", Blob("b")), g.add("c", Blob("c")), g.add("d", Blob("d"))}
				ns := []string{"1", "3", "0", "01", "-1", "9"}
				sub := Tree{}
				for i, n := range ns[x.All(pick(2, 4)):] {
					sub = append(sub, Entry{"100644", n, raw(b[i%4])})
				}
				s := g.add("sub", sub)
				top := Tree{{"100644", "2", raw(b[0])}, {"40000", "0", raw(s)}, {"100644", "1", raw(b[1])}}
				c := g.add("c", &Commit{Tree: g.add("top", top), Parents: []string{b[2], s, b[3]}, Other: []string{"x", "y"}, Message: "m"})
				r := []string{c, g.add("top", top), s}[x.All(3)]
				return g.pathBy(x, r, pick(4, 5), false, []string{"0", "1", "2", "3", "4", "5", "01", "-1", "00", "+1", "", "0x1", "9223372036854775808"}, x.All(2) == 1)
			}},
			{Name: "kin", Desc: "trees in which one name might be taken for another, which is there or not", Run: func(x *X) error {
				a, b, ok := kin(x)
				if !ok {
					return nil
				}
				g := newGraph()
				one, two := g.add("a", Blob("a")), g.add("b", Blob("b"))
				sub := g.add("sub", Tree{{"100644", b, raw(two)}})
				top := Tree{{"40000", a, raw(sub)}, {"100755", b, raw(one)}}
				r := g.add("c", &Commit{Tree: g.add("top", top[:1+x.All(2)]), Message: "m"})
				return g.along(x, r, [][]string{{"tree", a}, {"tree", b}, {"tree", a, "hash", b, "hash"}, {"tree", b, "hash"}, {"tree", a, "hash", a}, {"tree", b, "mode"}}[x.All(6)])
			}},
			{Name: "crossed", Desc: "links that lead to an object of another type, or to none", Run: func(x *X) error {
				g, roots := crossed(x)
				return g.path(x, roots[0], 5, false, pick(wrongSegs[3:7], wrongSegs))
			}},
			{Name: "walk", Desc: "everything that can be reached, in one walk", Bound: 1, Thorough: 2, Run: func(x *X) error {
				g, roots := standard(x)
				delete(g.objs, "") // nothing: every object is there but the submodule's
				root := roots[x.All(len(roots))]
				// the walk stops at the first link it cannot load, so serve that one too
				g.addAs(hexN(77), Blob("elsewhere"))
				impl := 1 + x.All(2)
				typed := x.All(2) == 1
				rl := g.link(root)
				o := g.objs[rl.Binary()[4:]]
				ls := memSystem(g.store)
				ls.TrustedStorage = true
				n, err := ls.Load(linking.LinkContext{Ctx: context.Background()}, rl, protoFor(o.Typ(), impl))
				if err != nil {
					return err
				}
				ssb := builder.NewSelectorSpecBuilder(basicnode.Prototype.Any)
				const depth = 60 // more than the graph has
				sel, err := selector.CompileSelector(ssb.ExploreRecursive(selector.RecursionLimitDepth(int64(depth)), ssb.ExploreUnion(ssb.Matcher(), ssb.ExploreAll(ssb.ExploreRecursiveEdge()))).Node())
				must(err)
				pr := g.progress(typed)
				pr.Cfg.LinkSystem = ls
				got := map[string]string{}
				err = pr.WalkMatching(n, sel, func(p traversal.Progress, v datamodel.Node) error {
					if v.IsAbsent() {
						return nil
					}
					d, err := dump(v, false)
					path := ""
					for _, s := range p.Path.Segments() {
						path += "/" + s.String()
					}
					got[path] = d
					return err
				})
				if err != nil {
					return fmt.Errorf("walking fails: %w", err)
				}
				_, v := refPlain(o)
				want := map[string]string{}
				g.visits("", v, depth-1, want)
				for p, d := range want {
					if got[p] != d {
						return fmt.Errorf("the walk has %s at %q, the graph has %s", clip(got[p]), p, clip(d))
					}
				}
				for p, d := range got {
					if _, ok := want[p]; !ok {
						return fmt.Errorf("the walk has %s at %q, which the graph does not have", clip(d), p)
					}
				}
				if len(got) != len(want) {
					return fmt.Errorf("the walk visits %d paths, the graph has %d", len(got), len(want))
				}
				x.Outcome("%d paths visited", len(got))
				return nil
			}},
			{Name: "store", Desc: "every object stored through a link system gets its own id and comes back", Bound: 1, Thorough: 2, Run: func(x *X) error {
				g, _ := standard(x)
				src, _ := standard(x)
				_ = src
				var ids []string
				for id := range g.objs {
					ids = append(ids, id)
				}
				sortStrings(ids)
				o := g.objs[ids[x.All(len(ids))]]
				x.Input(Wire(o))
				n, err := git.ParseObject(bytes.NewReader(Wire(o)))
				if err != nil {
					return err
				}
				n = asImpl(n, x.All(4))
				store := map[string][]byte{}
				ls := memSystem(store)
				proto := cidlink.LinkPrototype{Prefix: idOf(nil).Cid.Prefix()}
				l, err := ls.Store(linking.LinkContext{Ctx: context.Background()}, proto, n)
				if err != nil {
					return fmt.Errorf("storing: %w", err)
				}
				if l.Binary() != idOf(Wire(o)).Binary() {
					return fmt.Errorf("stored under %x, its id is %x", l.Binary(), idOf(Wire(o)).Binary())
				}
				if l2, err := ls.ComputeLink(proto, n); err != nil || l2.Binary() != l.Binary() {
					return fmt.Errorf("ComputeLink gives %v, %v", l2, err)
				}
				back, err := ls.Load(linking.LinkContext{Ctx: context.Background()}, l, protoFor(o.Typ(), x.All(3)))
				if err != nil {
					return fmt.Errorf("loading: %w", err)
				}
				return expectNode(back, o)
			}},
		}})
}

// addAs stores an object under an id that is not its own.
func (g *graph) addAs(hexs string, o Object) {
	g.objs[raw(hexs)] = o
	g.store[g.link(hexs).Binary()] = Wire(o)
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
