package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"
	"unicode/utf8"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec"
	"github.com/ipld/go-ipld-prime/codec/dagcbor"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/multicodec"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

// wrapped is a node implementation that this repository and go-ipld-prime know
// nothing about.
type wrapped struct {
	datamodel.Node
}

type wrappedProto struct{}

func (wrappedProto) NewBuilder() datamodel.NodeBuilder { return basicnode.Prototype.Any.NewBuilder() }

func (w wrapped) Prototype() datamodel.NodePrototype { return wrappedProto{} }

func wrap(n datamodel.Node, err error) (datamodel.Node, error) {
	if err != nil || n == nil {
		return n, err
	}
	return wrapped{n}, nil
}

func (w wrapped) LookupByString(k string) (datamodel.Node, error) {
	return wrap(w.Node.LookupByString(k))
}
func (w wrapped) LookupByNode(k datamodel.Node) (datamodel.Node, error) {
	s, err := k.AsString()
	if err != nil {
		return nil, err
	}
	return wrap(w.Node.LookupByString(s))
}
func (w wrapped) LookupByIndex(i int64) (datamodel.Node, error) { return wrap(w.Node.LookupByIndex(i)) }
func (w wrapped) LookupBySegment(s datamodel.PathSegment) (datamodel.Node, error) {
	return wrap(w.Node.LookupBySegment(s))
}
func (w wrapped) MapIterator() datamodel.MapIterator {
	it := w.Node.MapIterator()
	if it == nil {
		return nil
	}
	return wrappedMap{it}
}
func (w wrapped) ListIterator() datamodel.ListIterator {
	it := w.Node.ListIterator()
	if it == nil {
		return nil
	}
	return wrappedList{it}
}

type wrappedMap struct{ datamodel.MapIterator }

func (w wrappedMap) Next() (datamodel.Node, datamodel.Node, error) {
	k, v, err := w.MapIterator.Next()
	if err != nil {
		return nil, nil, err
	}
	return wrapped{k}, wrapped{v}, nil
}

type wrappedList struct{ datamodel.ListIterator }

func (w wrappedList) Next() (int64, datamodel.Node, error) {
	i, v, err := w.ListIterator.Next()
	if err != nil {
		return 0, nil, err
	}
	return i, wrapped{v}, nil
}

var errNotText = errors.New("not text")

// implementations of the same content.
var impls = []struct {
	name string
	make func(n ipld.Node, typ string) (ipld.Node, error)
}{
	{"typed", func(n ipld.Node, _ string) (ipld.Node, error) { return n, nil }},
	{"representation", func(n ipld.Node, _ string) (ipld.Node, error) { return asImpl(n, 1), nil }},
	{"generic", func(n ipld.Node, _ string) (ipld.Node, error) { return genericOf(n), nil }},
	{"generic, other order", func(n ipld.Node, typ string) (ipld.Node, error) { return generic(otherOrder(plain(n), typ)), nil }},
	{"foreign implementation", func(n ipld.Node, _ string) (ipld.Node, error) { return wrapped{genericOf(n)}, nil }},
	{"typed copy", func(n ipld.Node, typ string) (ipld.Node, error) {
		nb := builderFor(typ, false)
		return copyInto(nb, n)
	}},
	{"representation copy of generic", func(n ipld.Node, typ string) (ipld.Node, error) {
		return copyInto(builderFor(typ, true), genericOf(n))
	}},
	{"typed copy of generic", func(n ipld.Node, typ string) (ipld.Node, error) {
		return copyInto(builderFor(typ, false), genericOf(n))
	}},
	{"typed copy of foreign", func(n ipld.Node, typ string) (ipld.Node, error) {
		return copyInto(builderFor(typ, false), wrapped{genericOf(n)})
	}},
	{"generic copy of typed", func(n ipld.Node, _ string) (ipld.Node, error) {
		return copyInto(basicnode.Prototype.Any.NewBuilder(), n)
	}},
	{"through DAG-CBOR", func(n ipld.Node, typ string) (ipld.Node, error) {
		var b bytes.Buffer
		enc := dagcbor.EncodeOptions{AllowLinks: true, MapSortMode: codec.MapSortMode_None}.Encode
		if typ != "tree" {
			enc = dagcbor.Encode
		}
		if err := enc(asImpl(n, 1), &b); err != nil {
			return nil, err
		}
		return into(basicnode.Prototype.Any, func(na ipld.NodeAssembler) error { return dagcbor.Decode(na, &b) })
	}},
	{"through DAG-CBOR into typed", func(n ipld.Node, typ string) (ipld.Node, error) {
		var b bytes.Buffer
		enc := dagcbor.EncodeOptions{AllowLinks: true, MapSortMode: codec.MapSortMode_None}.Encode
		if err := enc(asImpl(n, 1), &b); err != nil {
			return nil, err
		}
		return into(protoFor(typ, 1), func(na ipld.NodeAssembler) error { return dagcbor.Decode(na, &b) })
	}},
	{"through DAG-JSON", func(n ipld.Node, typ string) (ipld.Node, error) { return viaJSON(n, typ, basicnode.Prototype.Any) }},
	{"through DAG-JSON into typed", func(n ipld.Node, typ string) (ipld.Node, error) { return viaJSON(n, typ, protoFor(typ, 1)) }},
}

func viaJSON(n ipld.Node, typ string, p ipld.NodePrototype) (ipld.Node, error) {
	if !text(n) {
		return nil, errNotText
	}
	var b bytes.Buffer
	enc := dagjson.EncodeOptions{EncodeLinks: true, EncodeBytes: true, MapSortMode: codec.MapSortMode_None}.Encode
	if typ != "tree" {
		enc = dagjson.Encode
	}
	if err := enc(asImpl(n, 1), &b); err != nil {
		return nil, err
	}
	return into(p, func(na ipld.NodeAssembler) error { return dagjson.Decode(na, &b) })
}

// text says whether JSON can hold all strings of a node.
func text(n ipld.Node) bool {
	d, err := dump(n, true)
	must(err)
	// links are written in hex by dump, so only strings and bytes matter; a
	// blob's bytes go into base64
	if n.Kind() == ipld.Kind_Bytes {
		return true
	}
	return utf8.ValidString(d) && !strings.Contains(d, "1'/:")
}

func copyInto(nb ipld.NodeBuilder, n ipld.Node) (ipld.Node, error) {
	if err := nb.AssignNode(n); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

// otherOrder reverses the fields of structs, but never the entries of a tree.
func otherOrder(v any, typ string) any {
	if typ != "tree" {
		return permuted(v, 0, true, true)
	}
	m := v.([]kv)
	out := make([]kv, len(m))
	for i := range m {
		out[i] = kv{m[i].k, permuted(m[i].v, 0, true, true)}
	}
	return out
}

// same encodes one implementation of an object and expects its bytes.
func same(x *X, o Object, impl int) error {
	in := Wire(o)
	x.Input(in)
	n, err := git.ParseObjectFromBuffer(in)
	if err != nil {
		return fmt.Errorf("a well-formed %s is rejected: %v", o.Typ(), err)
	}
	m := impls[impl]
	x.State(m.name, in)
	v, err := m.make(n, o.Typ())
	if err == errNotText {
		x.Outcome("not text, so JSON cannot hold it")
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: cannot be made: %v", m.name, err)
	}
	x.Outcome("%s as %s", o.Typ(), m.name)
	return encodesAs(v, in, m.name)
}

func encodesAs(v ipld.Node, want []byte, what string) error {
	out, err := encode(v)
	if err != nil {
		return fmt.Errorf("%s: cannot be encoded: %v", what, err)
	}
	if !bytes.Equal(out, want) {
		return fmt.Errorf("%s: encoded to other bytes: %s", what, diffAt(out, want))
	}
	return nil
}

// perm is the k-th permutation of 0..n-1.
func perm(k, n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	f := fact(n)
	var out []int
	for i := n; i > 0; i-- {
		f /= i
		j := k / f
		k %= f
		out = append(out, left[j])
		left = append(left[:j:j], left[j+1:]...)
	}
	return out
}

func fact(n int) int {
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	return f
}

func reorder(m []kv, p []int) []kv {
	out := make([]kv, len(m))
	for i, j := range p {
		out[i] = m[j]
	}
	return out
}

func get(m []kv, k string) int {
	for i := range m {
		if m[i].k == k {
			return i
		}
	}
	return -1
}

func fullCommit() *Commit {
	enc := "latin1"
	return &Commit{Tree: hexA, Parents: []string{hexB, hexA}, Author: person1(), Committer: &Person{"C", "c@d", "2", "-0100"}, Encoding: &enc,
		Mergetags: []MergeTag{{hexB, "commit", "v1", &Person{"T", "t@t", "3", "+0000"}, []string{" m"}}}, Sig: &Sig{" ", []string{" abc"}}, Other: []string{"HG:x", "y z"}, Message: "s\n\nb\n"}
}

func plainOf(o Object) any {
	n, err := git.ParseObjectFromBuffer(Wire(o))
	if err != nil {
		return nil
	}
	return plain(n)
}

// notGit are nodes that are no git object.
func notGit() map[string]func() ipld.Node {
	g := func(v any) func() ipld.Node { return func() ipld.Node { return generic(v) } }
	p := personKV(person1())
	m := map[string]func() ipld.Node{
		"null": func() ipld.Node { return datamodel.Null }, "absent": func() ipld.Node { return datamodel.Absent },
		"bool": g(true), "int": g(7), "float": g(1.5), "string": g("blob 0\x00"), "empty string": g(""), "link": g(gitLink(hexA)),
		"list": g([]any{}), "list of entries": g([]any{[]kv{{"mode", "1"}, {"hash", gitLink(hexA)}}}), "list of bytes": g([]any{[]byte("x")}),
		"map of strings": g([]kv{{"a", "b"}}), "map of links": g([]kv{{"a", gitLink(hexA)}}), "map of null": g([]kv{{"a", nil}}), "map of lists": g([]kv{{"a", []any{}}}), "map of ints": g([]kv{{"a", 1}}), "map of bytes": g([]kv{{"a", []byte("x")}}),
		"entry without mode": g([]kv{{"a", []kv{{"hash", gitLink(hexA)}}}}), "entry without hash": g([]kv{{"a", []kv{{"mode", "1"}}}}), "entry empty": g([]kv{{"a", []kv{}}}),
		"entry mode int": g([]kv{{"a", []kv{{"mode", 1}, {"hash", gitLink(hexA)}}}}), "entry mode null": g([]kv{{"a", []kv{{"mode", nil}, {"hash", gitLink(hexA)}}}}), "entry hash string": g([]kv{{"a", []kv{{"mode", "1"}, {"hash", hexA}}}}), "entry hash bytes": g([]kv{{"a", []kv{{"mode", "1"}, {"hash", []byte(shas[0])}}}}), "entry hash null": g([]kv{{"a", []kv{{"mode", "1"}, {"hash", nil}}}}),
		"second entry bad": g([]kv{{"a", []kv{{"mode", "1"}, {"hash", gitLink(hexA)}}}, {"b", "x"}}),
		"person":           g(p), "object string": g([]kv{{"object", hexA}, {"type", "commit"}, {"tag", "x"}, {"tagger", p}, {"message", "m"}}), "tree string": g([]kv{{"tree", hexA}, {"parents", []any{}}, {"message", ""}}),
		"only tree": g([]kv{{"tree", gitLink(hexA)}}), "only object": g([]kv{{"object", gitLink(hexA)}}), "entry itself": g([]kv{{"mode", "1"}, {"hash", gitLink(hexA)}}),
	}
	typed := map[string]ipld.NodePrototype{"PersonInfo": git.Type.PersonInfo, "String": git.Type.String, "GpgSig": git.Type.GpgSig, "Link": git.Type.Link, "Tree_Link": git.Type.Tree_Link, "Commit_Link": git.Type.Commit_Link, "TreeEntry": git.Type.TreeEntry, "Tag_List": git.Type.Tag_List, "String_List": git.Type.String_List, "Commit_Link_List": git.Type.Commit_Link_List}
	vals := map[string]any{"PersonInfo": p, "String": "x", "GpgSig": "x", "Link": gitLink(hexA), "Tree_Link": gitLink(hexA), "Commit_Link": gitLink(hexA), "TreeEntry": []kv{{"mode", "1"}, {"hash", gitLink(hexA)}}, "Tag_List": []any{}, "String_List": []any{"x"}, "Commit_Link_List": []any{gitLink(hexA)}}
	for k, p := range typed {
		m["typed "+k] = func() ipld.Node {
			nb := p.NewBuilder()
			if err := assign(nb, vals[k]); err != nil {
				return datamodel.Null // the builders are another property's business
			}
			return nb.Build()
		}
	}
	return m
}

var wrongValues = []any{nil, true, 7, 1.5, "text", []byte("bytes"), gitLink(hexA), []any{}, []kv{}, []any{"x"}, []kv{{"k", "v"}}, []any{nil}, []any{[]kv{}}, []any{7}}

func init() {
	notGitNames := func() []string {
		m := map[string]int64{}
		for k := range notGit() {
			m[k] = 0
		}
		return sortedKeys(m)
	}()
	register(&Property{ID: "C14",
		Bounds: map[string]any{"implementations": len(impls), "objects": "all objects of the other checks' alphabets with up to 1 (thorough 2) deviations, in every shape", "orders": "all orders of the fields of tags, persons and tree entries; of commits all that begin with any two fields, all rotations and reversals (thorough: all 362880); entries of trees in other orders", "nodes that are no object": len(notGitNames), "fields replaced": "every field, by each of 14 values"},
		Scenarios: []*Scenario{
			{Name: "objects", Desc: "every implementation of every sample object", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				return same(x, o, x.All(len(impls)))
			}},
			{Name: "values", Desc: "every implementation, with the values varied", Bound: 1, Thorough: 2, Run: func(x *X) error {
				impl := x.All(len(impls))
				switch x.All(3) {
				case 0:
					s := shape{2, x.All(2), 1, true, true, true, true}
					return same(x, s.fill(x), impl)
				case 1:
					t := &Tag{x.Str(hexes), x.Str(tagTypes), x.Str(tagNames), nil, x.Str(messages)}
					if x.All(2) == 1 {
						t.Tagger = genPerson(x)
					}
					return same(x, t, impl)
				default:
					t := Tree{}
					for i := 0; i < 3; i++ {
						name := fmt.Sprint("n", i)
						if k := x.Choose(len(entryNames) + 1); k > 0 {
							name = entryNames[k-1]
						}
						t = append(t, Entry{x.Str(modes), name, x.Str(shas)})
					}
					return same(x, t, impl)
				}
			}},
			{Name: "interactions", Desc: interactingDesc, Bound: 3, Thorough: 5, Run: func(x *X) error {
				return same(x, interacting(x), x.All(len(impls)))
			}},
			{Name: "shapes", Desc: "every implementation of commits with every combination of optional parts", Run: func(x *X) error {
				s := shape{x.AllInt([]int{0, 1, 3}), x.All(3), x.All(3), x.All(2) == 1, x.All(2) == 1, x.All(2) == 1, x.All(2) == 1}
				return same(x, s.fill(x), x.All(len(impls)))
			}},
			{Name: "trees", Desc: "trees whose entries are named like the fields of other objects, in any order", Run: func(x *X) error {
				ns := []string{"object", "tree", "parents", "message", "mode", "hash", "type", "tag", "tagger", "author", "a", "", "b"}
				var t Tree
				used := map[string]bool{}
				for i := x.All(pick(4, 5)); i > 0; i-- {
					n := x.AllStr(ns)
					if used[n] {
						n += fmt.Sprint(i)
					}
					used[n] = true
					t = append(t, Entry{"100644", n, shas[i]})
				}
				return same(x, t, x.All(len(impls)))
			}},
			{Name: "tag-orders", Desc: "all orders of a generic tag's fields and of its tagger's", Run: func(x *X) error {
				o := &Tag{hexA, "commit", "v1", person1(), "m\n"}
				m, _ := plainOf(o).([]kv)
				if len(m) != 5 {
					return fmt.Errorf("a tag has %d fields", len(m))
				}
				t := get(m, "tagger")
				pm, _ := m[t].v.([]kv)
				if len(pm) != 4 {
					return fmt.Errorf("a person has %d fields", len(pm))
				}
				m[t].v = reorder(pm, perm(x.All(24), 4))
				return encodesAs(generic(reorder(m, perm(x.All(120), 5))), Wire(o), "generic tag")
			}},
			{Name: "entry-orders", Desc: "all orders of the fields of every entry of a generic tree", Run: func(x *X) error {
				o := Tree{{"100644", "a", shas[1]}, {"40000", "b", shas[2]}, {"160000", "c", shas[3]}}[:1+x.All(3)]
				m, _ := plainOf(o).([]kv)
				for i := range m {
					if e, _ := m[i].v.([]kv); len(e) == 2 && x.All(2) == 1 {
						m[i].v = []kv{e[1], e[0]}
					}
				}
				n := generic(m)
				if x.All(2) == 1 {
					n = wrapped{n}
				}
				return encodesAs(n, Wire(o), "generic tree")
			}},
			{Name: "commit-orders", Desc: "orders of a generic commit's fields", Run: func(x *X) error {
				o := fullCommit()
				m, _ := plainOf(o).([]kv)
				if len(m) != 9 {
					return fmt.Errorf("a full commit has %d fields", len(m))
				}
				if thorough() {
					return encodesAs(generic(reorder(m, perm(x.All(fact(9)), 9))), Wire(o), "generic commit")
				}
				p := perm(x.All(72)*fact(7), 9) // every pair of first fields
				switch x.All(3) {
				case 1:
					for i, j := 2, 8; i < j; i, j = i+1, j-1 {
						p[i], p[j] = p[j], p[i]
					}
				case 2:
					for i, j := 0, 8; i < j; i, j = i+1, j-1 {
						p[i], p[j] = p[j], p[i]
					}
				}
				n := generic(reorder(m, p))
				if x.All(2) == 1 {
					n = wrapped{n}
				}
				return encodesAs(n, Wire(o), "generic commit")
			}},
			{Name: "commit-subsets", Desc: "generic commits without some optional fields, first field any", Run: func(x *X) error {
				o := fullCommit()
				m, _ := plainOf(o).([]kv)
				if x.All(2) == 1 {
					o.Author, m = nil, drop(m, "author")
				}
				if x.All(2) == 1 {
					o.Committer, m = nil, drop(m, "committer")
				}
				if x.All(2) == 1 {
					o.Encoding, m = nil, drop(m, "encoding")
				}
				if x.All(2) == 1 {
					o.Sig, m = nil, drop(m, "signature")
				}
				k := x.All(len(m))
				v := permuted(m, k, x.All(2) == 1, x.All(2) == 1)
				var n ipld.Node
				switch x.All(3) {
				case 0:
					n = generic(v)
				case 1:
					n = wrapped{generic(v)}
				default:
					nb := git.Type.Commit__Repr.NewBuilder()
					if err := assign(nb, v); err != nil {
						return fmt.Errorf("cannot be built: %v", err)
					}
					n = nb.Build()
				}
				x.Input(Wire(o))
				return encodesAs(n, Wire(o), "commit with a subset of the fields")
			}},
			{Name: "refused", Desc: "nodes that are no git object", Run: func(x *X) error {
				name := x.AllStr(notGitNames)
				n := notGit()[name]()
				k := x.All(2)
				if k == 1 && n.Kind() != ipld.Kind_Null {
					n = wrapped{n}
				}
				x.State(name, k)
				out, err := encode(n)
				x.Outcome("refused")
				if err == nil {
					return fmt.Errorf("%s is encoded as %q", name, out)
				}
				return nil
			}},
			{Name: "empty", Desc: "an empty map is the empty tree", Run: func(x *X) error {
				n := generic([]kv{})
				if x.All(2) == 1 {
					n = wrapped{n}
				}
				return encodesAs(n, []byte("tree 0\x00"), "empty map")
			}},
			{Name: "fields-replaced", Desc: "every field of every object, at every depth, replaced by another kind of value or dropped: refused, or another object, never a panic", Run: func(x *X) error {
				os := []Object{fullCommit(), &Tag{hexA, "commit", "v1", person1(), "m\n"}, Tree{{"1", "a", shas[0]}, {"2", "b", shas[1]}}}
				o := os[x.All(len(os))]
				v := plainOf(o)
				var slots []slot
				v = deepCopy(v)
				collect(&v, "", &slots)
				i := x.All(len(slots))
				sl := slots[i]
				k := x.All(len(wrongValues))
				was := kindOf(*sl.v)
				*sl.v = wrongValues[k]
				x.State(o.Typ(), i, k)
				n := generic(flatten(v))
				if x.All(2) == 1 && n.Kind() != ipld.Kind_Null {
					n = wrapped{n}
				}
				out, err := encode(n)
				x.Outcome("%s, refused: %v", o.Typ(), err != nil)
				x.Input(out)
				refuse := was != kindOf(wrongValues[k])
				switch {
				case i == 0:
					// the whole object is replaced: bytes are a blob, an empty
					// map is a tree
					refuse = was != "bytes" && kindOf(wrongValues[k]) != "bytes" && !isEmptyMap(wrongValues[k])
				case o.Typ() == "tag" && sl.path == "/tagger" && wrongValues[k] == nil:
					return nil // open: taken for a tag without a tagger
				case !refuse && was == "map":
					refuse = true // fields are missing
				case !refuse && was == "list":
					l := wrongValues[k].([]any)
					refuse = len(l) > 0 && !(sl.path == "/other" && l[0] == "x")
				}
				if refuse && err == nil {
					return fmt.Errorf("with %s replaced by %v (%T) it is written as %q", sl.path, wrongValues[k], wrongValues[k], out)
				}
				return nil
			}},
			{Name: "fields-dropped", Desc: "every field of every object, at every depth, left out, alone and with any other: refused unless it is optional, and then written without it, never a panic", Run: func(x *X) error {
				os := []Object{fullCommit(), &Tag{hexA, "commit", "v1", person1(), "m\n"}, Tree{{"1", "a", shas[0]}, {"2", "b", shas[1]}}}
				o := os[x.All(len(os))]
				m, _ := plainOf(o).([]kv)
				ps := fieldPaths("", m)
				i := x.All(len(ps))
				gone := []string{ps[i]}
				if j := x.All(i + 1); j < i {
					gone = append(gone, ps[j])
				}
				v := without("", m, gone)
				n := generic(v)
				switch x.All(3) {
				case 1:
					n = wrapped{n}
				case 2:
					if o.Typ() != "tree" { // where the order matters
						n = generic(permuted(v, 0, true, false))
					}
				}
				x.State(o.Typ(), i, len(gone))
				out, err := encode(n)
				x.Input(out)
				refuse, open := false, false
				var want Object
				switch o := o.(type) {
				case *Commit:
					for _, p := range gone {
						switch p {
						case "/author":
							o.Author = nil
						case "/committer":
							o.Committer = nil
						case "/encoding":
							o.Encoding = nil
						case "/signature":
							o.Sig = nil
						default: // it does not matter what a part that is left out lacks
							refuse = refuse || !inside(p, gone)
						}
					}
					want = o
				case *Tag:
					for _, p := range gone {
						if p == "/tagger" {
							o.Tagger, open = nil, true // or refused
						} else {
							refuse = refuse || !inside(p, gone)
						}
					}
					want = o
				case Tree:
					var rest Tree
					for _, e := range o {
						if !slices.Contains(gone, "/"+e.Name) {
							rest = append(rest, e)
						}
					}
					for _, p := range gone {
						refuse = refuse || strings.Count(p, "/") > 1 && !inside(p, gone)
					}
					want = rest
				}
				x.Outcome("%s, refused: %v", o.Typ(), err != nil)
				switch {
				case refuse && err == nil:
					return fmt.Errorf("without %q it is written as %q", gone, out)
				case refuse || open && err != nil:
					return nil
				case err != nil:
					return fmt.Errorf("without %q, which is optional, it is refused: %v", gone, err)
				case string(out) != string(Wire(want)):
					return fmt.Errorf("without %q it is written as %q, expected %q", gone, out, Wire(want))
				}
				return nil
			}},
			{Name: "registered", Desc: "the registered codec is this encoder", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				impl := x.All(4)
				e, err := multicodec.LookupEncoder(0x78)
				if err != nil {
					return fmt.Errorf("no encoder is registered: %v", err)
				}
				n, err := git.ParseObjectFromBuffer(Wire(o))
				if err != nil {
					return err
				}
				var b bytes.Buffer
				x.Input(Wire(o))
				if err := e(asImpl(n, impl), &b); err != nil {
					return fmt.Errorf("the registered encoder fails: %v", err)
				}
				if !bytes.Equal(b.Bytes(), Wire(o)) {
					return fmt.Errorf("the registered encoder writes other bytes: %s", diffAt(b.Bytes(), Wire(o)))
				}
				return nil
			}},
		}})
}

var _ io.Writer = (*bytes.Buffer)(nil)

func kindOf(v any) string {
	switch v.(type) {
	case []kv, []boxKV:
		return "map"
	case []any, []*any:
		return "list"
	case ipld.Link:
		return "link"
	case []byte:
		return "bytes"
	}
	return fmt.Sprintf("%T", v)
}

func isEmptyMap(v any) bool {
	m, ok := v.([]kv)
	return ok && len(m) == 0
}

type slot struct {
	v    *any
	path string
}

// fieldPaths are the paths of all fields within v.
func fieldPaths(at string, v any) []string {
	var out []string
	switch v := v.(type) {
	case []kv:
		for _, e := range v {
			p := at + "/" + e.k
			out = append(append(out, p), fieldPaths(p, e.v)...)
		}
	case []any:
		for i, e := range v {
			out = append(out, fieldPaths(fmt.Sprint(at, "/", i), e)...)
		}
	}
	return out
}

// inside reports whether a path lies within another one that is left out.
func inside(p string, gone []string) bool {
	for _, g := range gone {
		if strings.HasPrefix(p, g+"/") {
			return true
		}
	}
	return false
}

// without is v without the fields at some paths.
func without(at string, v any, gone []string) any {
	switch v := v.(type) {
	case []kv:
		out := []kv{}
		for _, e := range v {
			p := at + "/" + e.k
			if !slices.Contains(gone, p) {
				out = append(out, kv{e.k, without(p, e.v, gone)})
			}
		}
		return out
	case []any:
		out := []any{}
		for i, e := range v {
			out = append(out, without(fmt.Sprint(at, "/", i), e, gone))
		}
		return out
	}
	return v
}

func drop(m []kv, k string) []kv {
	var out []kv
	for _, e := range m {
		if e.k != k {
			out = append(out, e)
		}
	}
	return out
}

// A box is a map entry or list element that can be replaced.
type boxKV struct {
	k string
	v *any
}

func deepCopy(v any) any {
	switch v := v.(type) {
	case []kv:
		out := make([]boxKV, len(v))
		for i, e := range v {
			c := deepCopy(e.v)
			out[i] = boxKV{e.k, &c}
		}
		return out
	case []any:
		out := make([]*any, len(v))
		for i, e := range v {
			c := deepCopy(e)
			out[i] = &c
		}
		return out
	}
	return v
}

func collect(v *any, path string, out *[]slot) {
	*out = append(*out, slot{v, path})
	switch w := (*v).(type) {
	case []boxKV:
		for _, e := range w {
			collect(e.v, path+"/"+e.k, out)
		}
	case []*any:
		for _, e := range w {
			collect(e, path+"/*", out)
		}
	}
}

func flatten(v any) any {
	switch v := v.(type) {
	case []boxKV:
		out := make([]kv, len(v))
		for i, e := range v {
			out[i] = kv{e.k, flatten(*e.v)}
		}
		return out
	case []*any:
		out := make([]any, len(v))
		for i, e := range v {
			out[i] = flatten(*e)
		}
		return out
	}
	return v
}
