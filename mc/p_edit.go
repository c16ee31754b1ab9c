package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"slices"
	"strconv"
	"strings"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/schema"
	"github.com/ipld/go-ipld-prime/traversal"
)

// A removal in place of a new value.
type removed struct{}

// edited is v with the value at a path replaced, added or removed, according to the
// reference; false if there is no such place.
func edited(v any, segs []string, to any) (any, bool) {
	if len(segs) == 0 {
		return to, true
	}
	s, last := segs[0], len(segs) == 1
	switch v := v.(type) {
	case []kv:
		out := []kv{}
		found := false
		for _, e := range v {
			if e.k == s {
				found = true
				if _, gone := to.(removed); last && gone {
					continue
				}
				w, ok := edited(e.v, segs[1:], to)
				if !ok {
					return nil, false
				}
				e.v = w
			}
			out = append(out, e)
		}
		if !found {
			if _, gone := to.(removed); gone || !last {
				return nil, false
			}
			out = append(out, kv{s, to})
		}
		return out, true
	case []any:
		if _, gone := to.(removed); last && gone {
			return nil, false
		}
		out := slices.Clone(v)
		if s == "-" {
			return append(out, to), last
		}
		i, err := strconv.Atoi(s)
		if err != nil || i < 0 || i >= len(v) {
			return nil, false
		}
		w, ok := edited(v[i], segs[1:], to)
		out[i] = w
		return out, ok
	}
	return nil, false
}

// valueAt is the value at a path.
func valueAt(v any, segs []string) (any, bool) {
	for _, s := range segs {
		found := false
		switch c := v.(type) {
		case []kv:
			for _, e := range c {
				if e.k == s {
					v, found = e.v, true
					break
				}
			}
		case []any:
			if i, err := strconv.Atoi(s); err == nil && i >= 0 && i < len(c) {
				v, found = c[i], true
			}
		}
		if !found {
			return nil, false
		}
	}
	return v, true
}

// places are the paths of v: its own, those of all its parts, and in each map and list
// some that are not there.
func places(at []string, v any) [][]string {
	out := [][]string{at}
	sub := func(s string) []string { return append(slices.Clone(at), s) }
	switch v := v.(type) {
	case []kv:
		for _, e := range v {
			out = append(out, places(sub(e.k), e.v)...)
		}
		for _, s := range []string{"author", "committer", "encoding", "signature", "new", "a/b", "0"} {
			if _, ok := valueAt(v, []string{s}); !ok {
				out = append(out, sub(s))
			}
		}
	case []any:
		for i, e := range v {
			out = append(out, places(sub(strconv.Itoa(i)), e)...)
		}
		out = append(out, sub("-"), sub("x"), sub(strconv.Itoa(len(v))))
	}
	return out
}

func pathOf(segs []string) datamodel.Path {
	var ps []datamodel.PathSegment
	for _, s := range segs {
		ps = append(ps, datamodel.PathSegmentOfString(s))
	}
	return datamodel.NewPath(ps)
}

// lacks reports whether a value of the schema type lacks an optional field anywhere.
func (t *styp) lacks(v any) bool {
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			if schemaTypes[t.elem].lacks(e) {
				return true
			}
		}
	case []kv:
		for _, f := range t.fields {
			if w, ok := valueAt(v, []string{f.name}); !ok && f.optional || ok && schemaTypes[f.typ].lacks(w) {
				return true
			}
		}
	}
	return false
}

// newValue is a plain value as a node of one of several implementations.
func newValue(v any, form int) (ipld.Node, bool) {
	n := generic(v)
	switch form {
	case 1:
		return wrapped{n}, n.Kind() != ipld.Kind_Null
	case 2, 3:
		// a value of some type of the schema
		for _, name := range schemaNames {
			if t := schemaTypes[name]; t.conforms(v) {
				nb := t.proto(form == 3).NewBuilder()
				if nb.AssignNode(n) != nil {
					return nil, false
				}
				return nb.Build(), true
			}
		}
		return nil, false
	}
	return n, true
}

// An edit of a node. What it is to give is known from the reference.
type edit struct {
	segs []string
	to   any
	form int
}

func (e edit) String() string {
	return fmt.Sprintf("/%s := %v (form %d)", strings.Join(e.segs, "/"), e.to, e.form)
}

// apply makes an edit of a node with value v of type t, and compares.
func (e edit) apply(x *X, t *styp, n ipld.Node, v any, typed bool) (ipld.Node, any, error) {
	var put ipld.Node
	if _, gone := e.to.(removed); !gone {
		var ok bool
		if put, ok = newValue(e.to, e.form); !ok {
			return nil, nil, nil
		}
	}
	was, there := valueAt(v, e.segs)
	want, ok := edited(v, e.segs, e.to)
	_, gone := e.to.(removed)
	if gone && (!there || len(e.segs) == 0 || !ok) {
		return nil, nil, nil // go-ipld-prime's business
	}
	ok = ok && t.conforms(want)
	before, err := dump(n, false)
	if err != nil {
		return nil, nil, err
	}
	var seen ipld.Node
	out, err := traversal.FocusedTransform(n, pathOf(e.segs), func(_ traversal.Progress, m datamodel.Node) (datamodel.Node, error) {
		seen = m
		if gone {
			return nil, nil
		}
		return put, nil
	}, false)
	if there && seen != nil {
		if got, err := dump(seen, false); err != nil || got != rendered(was) {
			return nil, nil, fmt.Errorf("%v: the value there is given as %s, and is %s (%v)", e, clip(got), clip(rendered(was)), err)
		}
	}
	if after, e2 := dump(n, false); e2 != nil || after != before {
		return nil, nil, fmt.Errorf("%v changes the node that it is made from: %s (%v)", e, clip(after), e2)
	}
	x.Outcome("%s, refused: %v", t.name, err != nil)
	switch {
	case !ok && err == nil:
		got, _ := dump(out, false)
		return nil, nil, fmt.Errorf("%v is not possible, and gives %s", e, clip(got))
	case !ok:
		return nil, nil, nil
	case err != nil && typed && t.lacks(v):
		return nil, nil, nil // absent fields cannot be copied
	case err != nil:
		return nil, nil, fmt.Errorf("%v is refused: %w", e, err)
	}
	got, err := dump(out, t.kind == "map")
	if err != nil || got != t.value(want) {
		return nil, nil, fmt.Errorf("%v gives %s, expected %s (%v)", e, clip(got), clip(t.value(want)), err)
	}
	return out, want, nil
}

// writes compares what is written for a node with what is written for a generic node
// of its expected value.
func writes(n ipld.Node, v any) error {
	a, e1 := encode(n)
	b, e2 := encode(generic(v))
	if (e1 == nil) != (e2 == nil) || e1 == nil && !bytes.Equal(a, b) {
		return fmt.Errorf("after the edit it is written as %q (%v), and its value as %q (%v)", a, e1, b, e2)
	}
	return nil
}

func editObjects() []Object {
	p := person1()
	q := &Person{}
	*q = *p
	empty := fullCommit()
	empty.Parents, empty.Mergetags, empty.Other = nil, nil, nil
	return []Object{fullCommit(), empty, &Commit{Tree: hexA, Message: "m\n"}, &Commit{Tree: hexA, Parents: []string{hexB}, Author: p, Committer: q, Message: ""}, &Tag{hexA, "commit", "v1", p, "m\n"}, &Tag{hexA, "tree", "", nil, ""},
		Tree{{"100644", "a", shas[0]}, {"40000", "b", shas[1]}, {"1", "0", shas[2]}}, Tree{}, Blob("b")}
}

func newValues() []any {
	return []any{removed{}, "text", "", gitLink(hexB), []byte("blob 1\x00b"), []any{}, []any{"x", "y"}, []any{gitLink(hexA)}, []kv{{"mode", "1"}, {"hash", gitLink(hexB)}},
		example("PersonInfo", 3), []kv{{"name", "n"}, {"email", "e"}}, []kv{}, example("Tag", 4), []any{example("Tag", 4)}, example("Tree", 5), nil, 7, true, gitLink(hexA).String(), hexA, []byte(raw(hexA)), []byte("\x01")}
}

// A part of a value: where it is, of what type, and what it is.
type part struct {
	segs []string
	t    *styp
	v    any
}

// partsOf are the parts of a value of a type.
func partsOf(at []string, t *styp, v any) []part {
	out := []part{{at, t, v}}
	sub := func(s string) []string { return append(slices.Clone(at), s) }
	switch v := v.(type) {
	case []kv:
		for _, e := range v {
			typ := t.elem
			for _, f := range t.fields {
				if f.name == e.k {
					typ = f.typ
				}
			}
			out = append(out, partsOf(sub(e.k), schemaTypes[typ], e.v)...)
		}
	case []any:
		for i, e := range v {
			out = append(out, partsOf(sub(strconv.Itoa(i)), schemaTypes[t.elem], e)...)
		}
	}
	return out
}

// editsOf are the edits of a value that the sequences are made of.
func editsOf(v any) []edit {
	var out []edit
	for _, p := range places(nil, v) {
		if len(p) == 0 {
			continue
		}
		was, there := valueAt(v, p)
		if !there {
			switch p[len(p)-1] {
			case "encoding":
				out = append(out, edit{p, "new", 0})
			case "author":
				out = append(out, edit{p, example("PersonInfo", 6), 2})
			case "new":
				out = append(out, edit{p, example("TreeEntry", 7), 0})
			case "-":
				out = append(out, edit{p, "line", 2}, edit{p, gitLink(hexB), 0}, edit{p, example("Tag", 8), 3})
			}
			continue
		}
		switch was := was.(type) {
		case string:
			out = append(out, edit{p, was + "+", 0})
		case ipld.Link:
			out = append(out, edit{p, gitLink(hexN(9)), 2})
		case []any:
			out = append(out, edit{p, []any{}, 2})
		case []kv:
			out = append(out, edit{p, removed{}, 0})
		}
	}
	return out
}

// edited changes the object at a path of links below another one, and with it all links on the way.
func (g *graph) edited(id string, segs []string, change func(o Object) Object) (string, bool) {
	o, ok := g.objs[raw(id)]
	if !ok {
		return "", false
	}
	child := func(at int, link string) (string, bool) { return g.edited(link, segs[at:], change) }
	name := g.names[raw(id)] + "'"
	seg := func(i int) string {
		if i < len(segs) {
			return segs[i]
		}
		return ""
	}
	switch o := o.(type) {
	case Tree:
		for i, e := range o {
			if e.Name == seg(0) && seg(1) == "hash" {
				c, ok := child(2, hex.EncodeToString([]byte(e.Sha)))
				t := slices.Clone(o)
				t[i].Sha = raw(c)
				return g.add(name, t), ok
			}
		}
	case *Commit:
		c := *o
		if seg(0) == "tree" {
			c.Tree, ok = child(1, o.Tree)
			return g.add(name, &c), ok
		}
		if i, err := strconv.Atoi(seg(1)); seg(0) == "parents" && err == nil && i < len(o.Parents) {
			c.Parents = slices.Clone(o.Parents)
			c.Parents[i], ok = child(2, o.Parents[i])
			return g.add(name, &c), ok
		}
		if i, err := strconv.Atoi(seg(1)); seg(0) == "mergetag" && err == nil && i < len(o.Mergetags) && seg(2) == "object" {
			c.Mergetags = slices.Clone(o.Mergetags)
			c.Mergetags[i].Object, ok = child(3, o.Mergetags[i].Object)
			return g.add(name, &c), ok
		}
	case *Tag:
		t := *o
		if seg(0) == "object" {
			t.Object, ok = child(1, o.Object)
			return g.add(name, &t), ok
		}
	}
	return g.add(name, change(o)), true
}

// changes are what may be done to an object of a graph: a path in it, a value, and
// what the object is then.
type change struct {
	segs []string
	to   any
	with func(o Object) Object
}

func changesOf(o Object) []change {
	p := person1()
	switch o := o.(type) {
	case Tree:
		l := []change{
			{[]string{"added"}, []kv{{"mode", "100755"}, {"hash", gitLink(hexB)}}, func(Object) Object { return append(slices.Clone(o), Entry{"100755", "added", raw(hexB)}) }},
		}
		if len(o) > 0 {
			k := len(o) - 1
			n := o[k].Name
			l = append(l, change{[]string{n, "mode"}, "7", func(Object) Object { t := slices.Clone(o); t[k].Mode = "7"; return t }},
				change{[]string{n, "hash"}, gitLink(hexB), func(Object) Object { t := slices.Clone(o); t[k].Sha = raw(hexB); return t }},
				change{[]string{n}, removed{}, func(Object) Object { return o[:k:k] }},
				change{[]string{o[0].Name}, []kv{{"mode", "1"}, {"hash", gitLink(hexA)}}, func(Object) Object {
					t := slices.Clone(o)
					t[0].Mode, t[0].Sha = "1", raw(hexA)
					return t
				}})
		}
		return l
	case *Commit:
		return []change{
			{[]string{"message"}, "another\n", func(Object) Object { c := *o; c.Message = "another\n"; return &c }},
			{[]string{"author", "email"}, "new@e", func(Object) Object { c := *o; a := *o.Author; a.Email = "new@e"; c.Author = &a; return &c }},
			{[]string{"committer"}, personKV(p), func(Object) Object { c := *o; c.Committer = p; return &c }},
			{[]string{"parents", "-"}, gitLink(hexB), func(Object) Object { c := *o; c.Parents = append(slices.Clone(o.Parents), hexB); return &c }},
			{[]string{"tree"}, gitLink(hexB), func(Object) Object { c := *o; c.Tree = hexB; return &c }},
			{[]string{"encoding"}, "e", func(Object) Object { c := *o; e := "e"; c.Encoding = &e; return &c }},
		}
	case *Tag:
		return []change{
			{[]string{"tag"}, "other", func(Object) Object { t := *o; t.Tag = "other"; return &t }},
			{[]string{"message"}, "another", func(Object) Object { t := *o; t.Message = "another"; return &t }},
			{[]string{"tagger"}, personKV(p), func(Object) Object { t := *o; t.Tagger = p; return &t }},
		}
	case Blob:
		return []change{{nil, []byte("blob 3\x00new"), func(Object) Object { return Blob("new") }}}
	}
	return nil
}

// linkPaths are the paths from an object to those its links lead to, with their ids.
func linkPaths(o Object) (paths [][]string, ids []string) {
	add := func(id string, p ...string) { paths, ids = append(paths, p), append(ids, id) }
	switch o := o.(type) {
	case Tree:
		for _, e := range o {
			add(hex.EncodeToString([]byte(e.Sha)), e.Name, "hash")
		}
	case *Commit:
		add(o.Tree, "tree")
		for i, p := range o.Parents {
			add(p, "parents", strconv.Itoa(i))
		}
		for i, t := range o.Mergetags {
			add(t.Object, "mergetag", strconv.Itoa(i), "object")
		}
	case *Tag:
		add(o.Object, "object")
	}
	return
}

// repository is a graph whose commits have every field, but for one.
func repository() (g *graph, roots []string) {
	g = newGraph()
	b1, b2 := g.add("blob", Blob("one\n")), g.add("blob2", Blob(""))
	sub := g.add("subtree", Tree{{"100644", "z", raw(b2)}, {"100755", "y", raw(b1)}})
	top := g.add("tree", Tree{{"100644", "file", raw(b1)}, {"40000", "sub", raw(sub)}, {"160000", "nowhere", raw(hexN(77))}})
	full := func(tree string, parents []string, tags []MergeTag) *Commit {
		c := fullCommit()
		c.Tree, c.Parents, c.Mergetags = tree, parents, tags
		return c
	}
	c1 := g.add("first", full(sub, nil, nil))
	t1 := g.add("tag", &Tag{c1, "commit", "v1", person1(), "tagged\n"})
	c2 := g.add("second", full(top, []string{c1}, []MergeTag{{t1, "tag", "v2", person1(), []string{" m"}}}))
	t2 := g.add("tag of a tag", &Tag{t1, "tag", "v2", nil, ""})
	bare := g.add("bare", &Commit{Tree: top, Parents: []string{c2}, Author: person1(), Message: "bare\n"})
	return g, []string{c2, t2, bare, top, g.add("tag of the bare one", &Tag{bare, "commit", "v", person1(), "m"})}
}

// editGraph chooses a way down a graph and a change at its end, makes it with the real
// code, and compares every object that is stored.
func editGraph(x *X, depth int) error {
	g, roots := repository()
	root := roots[x.All(len(roots))]
	var segs []string
	id := root
	for range depth {
		ps, ids := linkPaths(g.objs[raw(id)])
		k := x.All(len(ps) + 1)
		if k == 0 {
			break
		}
		if _, ok := g.objs[raw(ids[k-1])]; !ok {
			return nil
		}
		segs, id = append(segs, ps[k-1]...), ids[k-1]
	}
	at := g.objs[raw(id)]
	cs := changesOf(at)
	c := cs[x.All(len(cs))]
	impl := x.All(3)
	typedLinks := x.All(2) == 1
	pr := g.progress(typedLinks)
	rootObj := g.objs[raw(root)]
	n, err := pr.Cfg.LinkSystem.Load(linkCtx(), g.link(root), protoFor(rootObj.Typ(), impl))
	if err != nil {
		return fmt.Errorf("the root cannot be loaded: %w", err)
	}
	if c.segs == nil && len(segs) == 0 {
		return nil
	}
	if impl == 1 {
		n = reprOf(n)
	}
	all := append(slices.Clone(segs), c.segs...)
	gone := c.to == removed{}
	what := fmt.Sprintf("/%s := %v from a %s (impl %d, typed links %v)", strings.Join(all, "/"), c.to, rootObj.Typ(), impl, typedLinks)
	x.Input([]byte(what))
	// a blob is replaced as a whole, through its link
	if c.segs == nil {
		l, err := pr.Cfg.LinkSystem.Store(linkCtx(), g.link(root).Prototype(), generic(c.to))
		if err != nil {
			return fmt.Errorf("a blob cannot be stored: %w", err)
		}
		if l.Binary() != idOf(Wire(Blob("new"))).Binary() {
			return fmt.Errorf("a blob is stored under another id: %v", l)
		}
		c.to = l
	}
	lacking := false // some typed commit on the way lacks a field
	out, err := pr.FocusedTransform(n, pathOf(all), func(_ traversal.Progress, m datamodel.Node) (datamodel.Node, error) {
		if gone {
			return nil, nil
		}
		return generic(c.to), nil
	}, false)
	// what the reference says
	newRoot, ok := g.edited(root, segs, c.with)
	if !ok {
		return harnessError{fmt.Errorf("no reference for %s", what)}
	}
	walk := root
	for s := segs; ; {
		// (decoding into a generic builder gives a typed node)
		if o, isCommit := g.objs[raw(walk)].(*Commit); isCommit && (impl != 1 || walk != root) {
			_, v := refPlain(o)
			lacking = lacking || schemaTypes["Commit"].lacks(v)
		}
		ps, ids := linkPaths(g.objs[raw(walk)])
		next := ""
		for i, p := range ps {
			if len(s) >= len(p) && slices.Equal(s[:len(p)], p) && len(s) > 0 {
				next, s = ids[i], s[len(p):]
				break
			}
		}
		if next == "" {
			break
		}
		walk = next
	}
	if err != nil {
		x.Outcome("refused")
		if lacking {
			return nil // absent fields cannot be copied
		}
		return fmt.Errorf("%s is refused: %w", what, err)
	}
	x.Outcome("changed %d links below the root", min(len(segs), 9))
	b, err := encode(out)
	if err != nil {
		return fmt.Errorf("%s cannot be written: %w", what, err)
	}
	if w := Wire(g.objs[raw(newRoot)]); !bytes.Equal(b, w) {
		return fmt.Errorf("%s gives %q, expected %q", what, b, w)
	}
	// every object on the way is stored under its own id, and is what it ought to be
	for cur, s := newRoot, segs; len(s) > 0; {
		ps, ids := linkPaths(g.objs[raw(cur)])
		next := ""
		for i, p := range ps {
			if len(s) >= len(p) && slices.Equal(s[:len(p)], p) {
				next, s = ids[i], s[len(p):]
				break
			}
		}
		if next == "" {
			break
		}
		l := g.link(next)
		if _, err := pr.Cfg.LinkSystem.LoadRaw(linkCtx(), l); err != nil {
			return fmt.Errorf("%s: the changed %s is not stored: %w", what, g.objs[raw(next)].Typ(), err)
		}
		cur = next
	}
	return nil
}

func linkCtx() ipld.LinkContext { return ipld.LinkContext{Ctx: context.Background()} }

func init() {
	values := newValues()
	register(&Property{ID: "C25",
		Bounds: map[string]any{"objects": len(editObjects()), "places": "every path in each, and in each map and list some that are not there", "values": len(values), "forms of the new value": 4, "parts": "every part of every object, as a part of the typed object, of its representation, and as the representation of the part", "sequences": "all of 2 (thorough 3) edits from up to 40", "graph": "every way down of up to 5 (thorough 7) links, every kind of change at its end"},
		Scenarios: []*Scenario{
			{Name: "edits", Desc: "every value in every form put at every place of every object, typed and as representation", Run: func(x *X) error {
				os := editObjects()
				o := os[x.All(len(os))]
				name, v := refPlain(o)
				t := schemaTypes[name]
				n, err := git.ParseObjectFromBuffer(Wire(o))
				if err != nil {
					return fmt.Errorf("rejected: %w", err)
				}
				typed := x.All(2) == 0
				if !typed {
					n = n.(schema.TypedNode).Representation()
				}
				ps := places(nil, v)
				e := edit{ps[x.All(len(ps))], values[x.All(len(values))], x.All(4)}
				x.Input([]byte(name + e.String()))
				out, want, err := e.apply(x, t, n, v, typed)
				if err != nil || out == nil {
					return err
				}
				return writes(out, want)
			}},
			{Name: "parts", Desc: "every part of every object as an object of its own: copied by its own builder, and every value put at every place of it", Run: func(x *X) error {
				os := editObjects()
				o := os[x.All(len(os))]
				name, v := refPlain(o)
				n, err := git.ParseObjectFromBuffer(Wire(o))
				if err != nil {
					return fmt.Errorf("rejected: %w", err)
				}
				view := x.All(3)
				if view == 1 {
					n = reprOf(n)
				}
				ps := partsOf(nil, schemaTypes[name], v)
				p := ps[x.All(len(ps))]
				for _, s := range p.segs {
					if n, err = n.LookupBySegment(datamodel.PathSegmentOfString(s)); err != nil {
						return fmt.Errorf("there is nothing at %v: %w", p.segs, err)
					}
				}
				if view == 2 { // the representation of the part, not the part of the representation
					n = reprOf(n)
				}
				from := []ipld.Node{generic(p.v), n, wrapped{generic(p.v)}}
				how := x.All(len(from))
				nb := n.Prototype().NewBuilder()
				if err := nb.AssignNode(from[how]); err != nil {
					if view == 0 && how == 1 && p.t.lacks(p.v) {
						return nil // absent fields cannot be copied
					}
					return fmt.Errorf("the builder of the %s at %v (view %d) refuses its value in form %d: %w", p.t.name, p.segs, view, how, err)
				}
				if got, err := dump(nb.Build(), p.t.kind == "map"); err != nil || got != p.t.value(p.v) {
					return fmt.Errorf("the builder of the %s at %v (view %d) makes %s of its value in form %d, %s (%v)", p.t.name, p.segs, view, clip(got), how, clip(p.t.value(p.v)), err)
				}
				if len(p.segs) == 0 || how != 0 {
					return nil
				}
				at := places(nil, p.v)
				e := edit{at[x.All(len(at))], values[x.All(len(values))], 0}
				x.Input([]byte(p.t.name + e.String()))
				_, _, err = e.apply(x, p.t, n, p.v, view == 0)
				return err
			}},
			{Name: "sequences", Desc: "sequences of edits of one object, all intermediate ones held", Run: func(x *X) error {
				os := editObjects()
				o := os[x.All(len(os))]
				name, v := refPlain(o)
				t := schemaTypes[name]
				if t.kind == "bytes" {
					return nil
				}
				n, err := git.ParseObjectFromBuffer(Wire(o))
				if err != nil {
					return fmt.Errorf("rejected: %w", err)
				}
				typed := x.All(2) == 0
				if !typed {
					n = n.(schema.TypedNode).Representation()
				}
				type step struct {
					n ipld.Node
					v any
				}
				held := []step{{n, v}}
				for range pick(2, 3) {
					// of any of the nodes so far
					from := held[len(held)-1-x.All(len(held))]
					n, v = from.n, from.v
					es := editsOf(v)
					e := es[x.All(len(es))]
					out, want, err := e.apply(x, t, n, v, typed)
					if err != nil {
						return fmt.Errorf("after %d edits: %w", len(held)-1, err)
					}
					if out == nil {
						break // refused
					}
					n, v = out, want
					if !typed { // what a builder of the representation gives is typed
						n = reprOf(n)
					}
					held = append(held, step{n, v})
				}
				for i, h := range held {
					got, err := dump(h.n, t.kind == "map")
					if err != nil || got != t.value(h.v) {
						return fmt.Errorf("the node after %d edits becomes %s, it was %s (%v)", i, clip(got), clip(t.value(h.v)), err)
					}
					if err := writes(h.n, h.v); err != nil {
						return fmt.Errorf("the node after %d edits: %w", i, err)
					}
				}
				x.Input([]byte(t.value(v)))
				return nil
			}},
			{Name: "graph", Desc: "changes below the root of a graph of objects: all objects on the way are written anew", Run: func(x *X) error {
				return editGraph(x, pick(5, 7))
			}},
		}})
}
