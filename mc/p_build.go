package main

import (
	"bytes"
	"errors"
	"fmt"
	"iter"
	"slices"
	"strings"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
)

// The schema, written down here a second time.

type styp struct {
	name   string
	kind   string // string, bytes, link, list, struct, map
	elem   string
	fields []sfield
	typed  ipld.NodePrototype
	repr   ipld.NodePrototype
}

type sfield struct {
	name, typ string
	optional  bool
}

var schemaTypes = func() map[string]*styp {
	t := git.Type
	l := []*styp{
		{"String", "string", "", nil, t.String, t.String__Repr},
		{"GpgSig", "string", "", nil, t.GpgSig, t.GpgSig__Repr},
		{"Link", "link", "", nil, t.Link, t.Link__Repr},
		{"Tree_Link", "link", "", nil, t.Tree_Link, t.Tree_Link__Repr},
		{"Commit_Link", "link", "", nil, t.Commit_Link, t.Commit_Link__Repr},
		{"Blob", "bytes", "", nil, t.Blob, t.Blob__Repr},
		{"String_List", "list", "String", nil, t.String_List, t.String_List__Repr},
		{"Commit_Link_List", "list", "Commit_Link", nil, t.Commit_Link_List, t.Commit_Link_List__Repr},
		{"Tag_List", "list", "Tag", nil, t.Tag_List, t.Tag_List__Repr},
		{"TreeEntry", "struct", "", []sfield{{"mode", "String", false}, {"hash", "Link", false}}, t.TreeEntry, t.TreeEntry__Repr},
		{"PersonInfo", "struct", "", []sfield{{"date", "String", false}, {"timezone", "String", false}, {"email", "String", false}, {"name", "String", false}}, t.PersonInfo, t.PersonInfo__Repr},
		{"Tag", "struct", "", []sfield{{"object", "Link", false}, {"type", "String", false}, {"tag", "String", false}, {"tagger", "PersonInfo", false}, {"message", "String", false}}, t.Tag, t.Tag__Repr},
		{"Commit", "struct", "", []sfield{{"tree", "Tree_Link", false}, {"parents", "Commit_Link_List", false}, {"message", "String", false}, {"author", "PersonInfo", true}, {"committer", "PersonInfo", true}, {"encoding", "String", true}, {"signature", "GpgSig", true}, {"mergetag", "Tag_List", false}, {"other", "String_List", false}}, t.Commit, t.Commit__Repr},
		{"Tree", "map", "TreeEntry", nil, t.Tree, t.Tree__Repr},
	}
	m := map[string]*styp{}
	for _, s := range l {
		m[s.name] = s
	}
	return m
}()

var schemaNames = func() []string {
	m := map[string]int64{}
	for k := range schemaTypes {
		m[k] = 0
	}
	return sortedKeys(m)
}()

func (t *styp) proto(repr bool) ipld.NodePrototype {
	if repr {
		return t.repr
	}
	return t.typed
}

// conforms says whether a plain value is a value of the type.
func (t *styp) conforms(v any) bool {
	switch t.kind {
	case "string":
		_, ok := v.(string)
		return ok
	case "bytes":
		_, ok := v.([]byte)
		return ok
	case "link":
		_, ok := v.(ipld.Link)
		return ok
	case "list":
		l, ok := v.([]any)
		for _, e := range l {
			ok = ok && schemaTypes[t.elem].conforms(e)
		}
		return ok
	case "map":
		m, ok := v.([]kv)
		seen := map[string]bool{}
		for _, e := range m {
			ok = ok && !seen[e.k] && schemaTypes[t.elem].conforms(e.v)
			seen[e.k] = true
		}
		return ok
	}
	m, ok := v.([]kv)
	if !ok {
		return false
	}
	seen := map[string]bool{}
	for _, e := range m {
		f := t.field(e.k)
		if f == nil || seen[e.k] || !schemaTypes[f.typ].conforms(e.v) {
			return false
		}
		seen[e.k] = true
	}
	for _, f := range t.fields {
		if !f.optional && !seen[f.name] {
			return false
		}
	}
	return true
}

// missing reports whether some value in v, a value of the type or meant for one, lacks
// just the given required fields.
func (t *styp) missing(v any, fields string) bool {
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			if t.elem != "" && schemaTypes[t.elem].missing(e, fields) {
				return true
			}
		}
	case []kv:
		seen := map[string]bool{}
		for _, e := range v {
			seen[e.k] = true
			if f := t.field(e.k); f != nil && schemaTypes[f.typ].missing(e.v, fields) || t.elem != "" && schemaTypes[t.elem].missing(e.v, fields) {
				return true
			}
		}
		lack := []string{}
		for _, f := range t.fields {
			if !f.optional && !seen[f.name] {
				lack = append(lack, f.name)
			}
		}
		slices.Sort(lack)
		return fmt.Sprint(lack) == fields
	}
	return false
}

func (t *styp) field(k string) *sfield {
	for i := range t.fields {
		if t.fields[i].name == k {
			return &t.fields[i]
		}
	}
	return nil
}

// value renders a plain value as the reference renders values.
func (t *styp) value(v any) string {
	switch v := v.(type) {
	case string:
		return dmStr(v)
	case []byte:
		return dmBytes(v)
	case ipld.Link:
		return dmAnyLink(v)
	case []any:
		var l []string
		for _, e := range v {
			l = append(l, schemaTypes[t.elem].value(e))
		}
		return dmList(l)
	case []kv:
		if t.kind == "map" {
			var b strings.Builder
			b.WriteString("{")
			for _, e := range v {
				b.WriteString(dmStr(e.k) + ":" + schemaTypes[t.elem].value(e.v) + ",")
			}
			return b.String() + "}"
		}
		m := map[string]string{}
		for _, e := range v {
			m[e.k] = schemaTypes[t.field(e.k).typ].value(e.v)
		}
		return dmMap(m)
	}
	return "?"
}

// example is the n-th ordinary value of a type.
func example(typ string, n int) any {
	switch typ {
	case "String":
		return fmt.Sprint("text", n)
	case "GpgSig":
		return fmt.Sprint(" sig\n", n)
	case "Link", "Tree_Link", "Commit_Link":
		return gitLink(hexN(n))
	case "Blob":
		return []byte(fmt.Sprint("blob 1\x00", n))
	case "String_List", "Commit_Link_List", "Tag_List":
		e := schemaTypes[typ].elem
		return []any{example(e, n), example(e, n+1)}
	case "Tree":
		return []kv{{"a", example("TreeEntry", n)}, {"b", example("TreeEntry", n+1)}}
	}
	var m []kv
	for i, f := range schemaTypes[typ].fields {
		m = append(m, kv{f.name, example(f.typ, n+i)})
	}
	return m
}

// A route says how a value is put together.
type route struct {
	key  int // 0 AssembleEntry, 1 AssembleKey/AssignString, 2 with a generic node, 3 with a typed node
	val  int // 0 piece by piece, 1 AssignNode of generic nodes, 2 AssignNode of a typed node, 3 of its representation, 4 of a foreign implementation
	hint int // 0 exact, 1 -1, 2 zero, 3 too large
}

func (r route) size(n int) int64 {
	switch r.hint {
	case 1:
		return -1
	case 2:
		return 0
	case 3:
		return int64(n) + 100
	}
	return int64(n)
}

func hasDup(v any) bool {
	switch v := v.(type) {
	case []kv:
		seen := map[string]bool{}
		for _, e := range v {
			if seen[e.k] || hasDup(e.v) {
				return true
			}
			seen[e.k] = true
		}
	case []any:
		for _, e := range v {
			if hasDup(e) {
				return true
			}
		}
	}
	return false
}

// put assigns v to an assembler for type t (nil if v does not fit any).
func put(na ipld.NodeAssembler, t *styp, v any, r route) error {
	sub := func(k string) *styp {
		if t == nil {
			return nil
		}
		if t.elem != "" {
			return schemaTypes[t.elem]
		}
		if f := t.field(k); f != nil {
			return schemaTypes[f.typ]
		}
		return nil
	}
	whole := func(n ipld.Node) error { return na.AssignNode(n) }
	_, isMap := v.([]kv)
	_, isList := v.([]any)
	if r.val == 1 && !hasDup(v) {
		return whole(generic(v))
	}
	if r.val == 4 && !hasDup(v) && v != nil {
		return whole(wrapped{generic(v)})
	}
	if (r.val == 2 || r.val == 3) && t != nil && t.conforms(v) {
		nb := t.proto(false).NewBuilder()
		if err := assign(nb, v); err == nil {
			n := nb.Build()
			if r.val == 3 {
				n = n.(schema.TypedNode).Representation()
			}
			return whole(n)
		}
	}
	switch {
	case isMap:
		m := v.([]kv)
		ma, err := na.BeginMap(r.size(len(m)))
		if err != nil {
			return err
		}
		for _, e := range m {
			var va ipld.NodeAssembler
			if r.key == 0 {
				if va, err = ma.AssembleEntry(e.k); err != nil {
					return err
				}
			} else {
				ka := ma.AssembleKey()
				switch r.key {
				case 1:
					err = ka.AssignString(e.k)
				case 2:
					err = ka.AssignNode(basicnode.NewString(e.k))
				case 3:
					nb := git.Type.String.NewBuilder()
					must(nb.AssignString(e.k))
					err = ka.AssignNode(nb.Build())
				}
				if err != nil {
					return err
				}
				va = ma.AssembleValue()
			}
			if err := put(va, sub(e.k), e.v, r); err != nil {
				return err
			}
		}
		return ma.Finish()
	case isList:
		l := v.([]any)
		la, err := na.BeginList(r.size(len(l)))
		if err != nil {
			return err
		}
		for _, e := range l {
			if err := put(la.AssembleValue(), sub(""), e, r); err != nil {
				return err
			}
		}
		return la.Finish()
	}
	return assign(na, v)
}

// built checks one attempt to build a value.
func built(x *X, typ string, repr bool, v any, r route) error {
	t := schemaTypes[typ]
	nb := t.proto(repr).NewBuilder()
	x.State(typ, repr, fmt.Sprint(v), r)
	return builtWith(x, nb, t, v, r, repr)
}

func builtWith(x *X, nb ipld.NodeBuilder, t *styp, v any, r route, repr bool) error {
	x.Input([]byte(fmt.Sprintf("%s repr=%v route=%+v value=%q", t.name, repr, r, fmt.Sprint(v))))
	want := t.conforms(v)
	err := put(nb, t, v, r)
	if want != (err == nil) {
		return fmt.Errorf("%s (representation: %v, route %+v), value %v: conforms to the schema: %v, builder says: %v", t.name, repr, r, v, want, err)
	}
	if !want {
		var m schema.ErrMissingRequiredField
		if errors.As(err, &m) {
			slices.Sort(m.Missing)
			if !t.missing(v, fmt.Sprint(m.Missing)) {
				return fmt.Errorf("%s (representation: %v, route %+v), value %v: the error says that the fields %v are missing", t.name, repr, r, v, m.Missing)
			}
			x.Outcome("refused, fields missing")
			return nil
		}
		x.Outcome("refused")
		return nil
	}
	x.Outcome("accepted")
	n := nb.Build()
	for i, m := range []ipld.Node{n, reprOf(n)} {
		d, err := dump(m, t.kind == "map")
		if err != nil {
			return fmt.Errorf("the built %s cannot be read: %v", t.name, err)
		}
		if d != t.value(v) {
			return fmt.Errorf("the built %s (view %d) is\n %s\nnot\n %s", t.name, i, clip(d), clip(t.value(v)))
		}
	}
	return nil
}

// stepping is an assembler that lets others go first before every call.
type stepping struct {
	ipld.NodeAssembler
	step func()
}

func (s stepping) BeginMap(n int64) (ipld.MapAssembler, error) {
	s.step()
	ma, err := s.NodeAssembler.BeginMap(n)
	return steppingMap{ma, s.step}, err
}

func (s stepping) BeginList(n int64) (ipld.ListAssembler, error) {
	s.step()
	la, err := s.NodeAssembler.BeginList(n)
	return steppingList{la, s.step}, err
}

func (s stepping) AssignString(v string) error {
	s.step()
	return s.NodeAssembler.AssignString(v)
}

func (s stepping) AssignBytes(v []byte) error {
	s.step()
	return s.NodeAssembler.AssignBytes(v)
}

func (s stepping) AssignLink(v ipld.Link) error {
	s.step()
	return s.NodeAssembler.AssignLink(v)
}

func (s stepping) AssignNode(v ipld.Node) error {
	s.step()
	return s.NodeAssembler.AssignNode(v)
}

type steppingMap struct {
	ipld.MapAssembler
	step func()
}

func (s steppingMap) AssembleKey() ipld.NodeAssembler {
	s.step()
	return stepping{s.MapAssembler.AssembleKey(), s.step}
}

func (s steppingMap) AssembleValue() ipld.NodeAssembler {
	s.step()
	return stepping{s.MapAssembler.AssembleValue(), s.step}
}

func (s steppingMap) AssembleEntry(k string) (ipld.NodeAssembler, error) {
	s.step()
	va, err := s.MapAssembler.AssembleEntry(k)
	return stepping{va, s.step}, err
}

func (s steppingMap) Finish() error {
	s.step()
	return s.MapAssembler.Finish()
}

type steppingList struct {
	ipld.ListAssembler
	step func()
}

func (s steppingList) AssembleValue() ipld.NodeAssembler {
	s.step()
	return stepping{s.ListAssembler.AssembleValue(), s.step}
}

func (s steppingList) Finish() error {
	s.step()
	return s.ListAssembler.Finish()
}

// lengthy is an example of a type whose lists (and trees) have n elements.
func lengthy(typ string, n, seed int) any {
	t := schemaTypes[typ]
	switch t.kind {
	case "list":
		l := []any{}
		for i := range n {
			l = append(l, lengthy(t.elem, n, seed+10*i))
		}
		return l
	case "map":
		m := []kv{}
		for i := range n {
			m = append(m, kv{fmt.Sprint("n", i), example(t.elem, seed+10*i)})
		}
		return m
	case "struct":
		m := []kv{}
		for i, f := range t.fields {
			m = append(m, kv{f.name, lengthy(f.typ, n, seed+i)})
		}
		return m
	}
	return example(typ, seed)
}

// beside builds two values with two builders, whose calls are interleaved.
func beside(x *X, typ string, repr bool, vs [2]any, r route) error {
	t := schemaTypes[typ]
	var nbs [2]ipld.NodeBuilder
	var next [2]func() (error, bool)
	for i := range nbs {
		nbs[i] = t.proto(repr).NewBuilder()
		var stop func()
		next[i], stop = iter.Pull(func(yield func(error) bool) {
			err := put(stepping{nbs[i], func() {
				if !yield(nil) {
					panic("stopped")
				}
			}}, t, vs[i], r)
			if err != nil {
				yield(err)
			}
		})
		defer func() {
			defer func() { _ = recover() }()
			stop()
		}()
	}
	done, turn := [2]bool{}, 0
	order := ""
	for !done[0] || !done[1] {
		if done[turn] || !done[1-turn] && x.Choose(2) == 1 {
			turn = 1 - turn
		}
		order += fmt.Sprint(turn)
		err, more := next[turn]()
		if err != nil {
			return fmt.Errorf("two builders of a %s (representation: %v, route %+v), in the order %s: %w", typ, repr, r, order, err)
		}
		done[turn] = !more
	}
	x.Input([]byte(typ + order))
	for i, nb := range nbs {
		n := nb.Build()
		if d, err := dump(n, t.kind == "map"); err != nil || d != t.value(vs[i]) {
			return fmt.Errorf("of two builders of a %s (representation: %v, route %+v), used in the order %s, number %d gives\n %s\nnot\n %s (%v)", typ, repr, r, order, i, clip(d), clip(t.value(vs[i])), err)
		}
	}
	x.Outcome("two %s", typ)
	return nil
}

func reprOf(n ipld.Node) ipld.Node {
	if t, ok := n.(schema.TypedNode); ok {
		return t.Representation()
	}
	return n
}

func anyRoute(x *X) route { return route{x.All(4), x.All(5), x.All(4)} }

// costRoute: the plain route is free, others are deviations.
func costRoute(x *X) route { return route{x.Choose(4), x.Choose(5), x.Choose(4)} }

func init() {
	bad := []any{nil, true, 7, 1.5, "text", []byte("bytes"), gitLink(hexA), []any{}, []kv{}, []any{"x"}, []any{gitLink(hexA)}, []kv{{"k", "v"}}, []any{nil}, []any{[]kv{}}, []any{[]any{}}, []kv{{"mode", "1"}, {"hash", gitLink(hexB)}}, []kv{{"a", []kv{{"mode", "1"}, {"hash", gitLink(hexB)}}}}}
	// values that only look like others
	bad = append(bad, hexA, gitLink(hexA).String(), "", "0", "7", "true", "null", "{}", []byte(raw(hexA)), []byte(gitLink(hexA).Binary()), []byte(hexA), []byte{}, []byte{0}, []byte("\x01text"), []byte("\xff\xfe"), []kv{{"/", gitLink(hexA).String()}}, []kv{{"/", []kv{{"bytes", "AA"}}}}, []kv{{"0", "x"}, {"1", "y"}}, []any{"mode", "hash"}, []any{[]any{"mode", "1"}, []any{"hash", gitLink(hexB)}})
	full := append([]any{}, bad...)
	for _, t := range schemaNames {
		full = append(full, example(t, 3))
	}
	keySeq := func(x *X, typ string, keys []string, max int) []kv {
		m := []kv{}
		for i, n := 0, x.All(max+1); i < n; i++ {
			k := x.AllStr(keys)
			var v any = "v"
			if f := schemaTypes[typ].field(k); f != nil {
				v = example(f.typ, 10*i)
			} else if typ == "Tree" {
				v = example("TreeEntry", i)
			}
			m = append(m, kv{k, v})
		}
		return m
	}
	register(&Property{ID: "C17",
		Bounds: map[string]any{"types": schemaNames, "values": fmt.Sprintf("each of %d values assigned to each of 28 builders; all key sequences of up to n+1 fields for structs of n (commits: all subsets of the fields, with one repetition or unknown field anywhere); every field at every depth replaced by each value", len(full)), "two builders": "all orders of their calls with at most 2 (thorough 3) changes of turn more than needed", "routes": "AssembleEntry or AssembleKey (three ways), piece by piece or AssignNode of generic, typed, representation or foreign nodes, four size hints"},
		Assume: []string{"call sequences that the interfaces of go-ipld-prime declare invalid (Finish in the middle of a value, going on after an error) are not part of the property"},
		Scenarios: []*Scenario{
			{Name: "kinds", Desc: "every value assigned to every builder", Run: func(x *X) error {
				typ := x.AllStr(schemaNames)
				return built(x, typ, x.All(2) == 1, full[x.All(len(full))], anyRoute(x))
			}},
			{Name: "entry-keys", Desc: "all short key sequences for a tree entry", Run: func(x *X) error {
				return built(x, "TreeEntry", x.All(2) == 1, keySeq(x, "TreeEntry", []string{"mode", "hash", "Mode", ""}, 3), anyRoute(x))
			}},
			{Name: "person-keys", Desc: "all key sequences for a person", Run: func(x *X) error {
				return built(x, "PersonInfo", x.All(2) == 1, keySeq(x, "PersonInfo", []string{"date", "timezone", "email", "name", "x"}, 5), route{x.All(4), 0, 0})
			}},
			{Name: "person-routes", Desc: "all orders of a person's fields, by every route", Run: func(x *X) error {
				return built(x, "PersonInfo", x.All(2) == 1, reorder(example("PersonInfo", 0).([]kv), perm(x.All(24), 4)), anyRoute(x))
			}},
			{Name: "tag-keys", Desc: "all key sequences for a tag", Run: func(x *X) error {
				n := pick(5, 6)
				keys := []string{"object", "type", "tag", "tagger", "message", "typ"}
				return built(x, "Tag", x.All(2) == 1, keySeq(x, "Tag", keys, n), route{x.All(2), 0, 0})
			}},
			{Name: "tag-routes", Desc: "all orders of a tag's fields, by every route", Run: func(x *X) error {
				return built(x, "Tag", x.All(2) == 1, reorder(example("Tag", 0).([]kv), perm(x.All(120), 5)), anyRoute(x))
			}},
			{Name: "tag-dups", Desc: "a whole tag with one field repeated at any place", Run: func(x *X) error {
				m := example("Tag", 0).([]kv)
				return built(x, "Tag", x.All(2) == 1, insertKV(m, x.All(6), m[x.All(5)]), route{x.All(4), x.All(5), 0})
			}},
			{Name: "commit-subsets", Desc: "all subsets of a commit's fields, in four orders", Run: func(x *X) error {
				all := example("Commit", 0).([]kv)
				m := []kv{}
				for _, e := range all {
					if x.All(2) == 0 {
						m = append(m, e)
					}
				}
				if len(m) > 0 {
					m = permuted(m, x.AllInt([]int{0, 1}), x.All(2) == 1, false).([]kv)
				} else {
					x.All(2)
					x.All(2)
				}
				return built(x, "Commit", x.All(2) == 1, m, route{x.All(4), x.All(5), 0})
			}},
			{Name: "commit-extra", Desc: "a commit with one field repeated, or an unknown one, at any place", Run: func(x *X) error {
				m := example("Commit", 0).([]kv)
				if x.All(2) == 1 {
					for _, k := range []string{"author", "committer", "encoding", "signature"} {
						m = drop(m, k)
					}
				}
				e := kv{"Tree", "x"}
				if k := x.All(len(m) + 1); k > 0 {
					e = m[k-1]
				}
				return built(x, "Commit", x.All(2) == 1, insertKV(m, x.All(len(m)+1), e), route{x.All(4), x.All(5), 0})
			}},
			{Name: "commit-orders", Desc: "all pairs of first fields, rotations and reversals of a whole commit (thorough: all orders)", Run: func(x *X) error {
				m := example("Commit", 0).([]kv)
				if thorough() {
					return built(x, "Commit", x.All(2) == 1, reorder(m, perm(x.All(fact(9)), 9)), route{x.All(2), 0, 0})
				}
				v := permuted(reorder(m, perm(x.All(72)*fact(7), 9)), x.All(9), x.All(2) == 1, false)
				return built(x, "Commit", x.All(2) == 1, v, route{x.All(2), x.All(5), 0})
			}},
			{Name: "lists", Desc: "all short lists over right and wrong elements", Run: func(x *X) error {
				typ := x.AllStr([]string{"String_List", "Commit_Link_List", "Tag_List"})
				good := schemaTypes[typ].elem
				al := []any{example(good, 0), example(good, 5), nil, "s", gitLink(hexB), []kv{}, 7}
				l := []any{}
				for i := x.All(pick(4, 5)); i > 0; i-- {
					l = append(l, al[x.All(len(al))])
				}
				return built(x, typ, x.All(2) == 1, l, route{0, x.All(5), x.All(4)})
			}},
			{Name: "list-lengths", Desc: "lists and trees of many lengths, by every route", Run: func(x *X) error {
				n := x.AllInt(around([]int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100}, 300))
				typ := x.AllStr([]string{"String_List", "Commit_Link_List", "Tag_List", "Tree"})
				if typ == "Tree" {
					m := []kv{}
					for i := 0; i < n; i++ {
						m = append(m, kv{fmt.Sprint("n", i), example("TreeEntry", i)})
					}
					return built(x, typ, x.All(2) == 1, m, anyRoute(x))
				}
				l := []any{}
				for i := 0; i < n; i++ {
					l = append(l, example(schemaTypes[typ].elem, i))
				}
				return built(x, typ, x.All(2) == 1, l, anyRoute(x))
			}},
			{Name: "long-wrong", Desc: "long lists and trees with one thing wrong at any of several places: a key repeated, a wrong element", Run: func(x *X) error {
				n := x.AllInt(around([]int{2, 3, 5, 8, 9, 16, 17, 33, 64, 65, 66, 129, 257, 513, 1025}, pick(1100, 2100)))
				typ := x.AllStr([]string{"Tree", "String_List", "Commit_Link_List", "Tag_List"})
				at := []int{0, 1, n / 2, n - 1, n}[x.All(5)]
				r := route{x.All(4), x.AllInt(pick([]int{0, 1}, []int{0, 1, 4})), x.AllInt(pick([]int{0}, []int{0, 1}))}
				if typ == "Tree" {
					m := lengthy(typ, n, 0).([]kv)
					bad := kv{m[[]int{0, n / 2, n - 1}[x.All(3)]].k, example("TreeEntry", 7)}
					if x.All(2) == 1 {
						bad = kv{"new", "no entry"}
					}
					m = append(m[:at:at], append([]kv{bad}, m[at:]...)...)
					return built(x, typ, x.All(2) == 1, m, r)
				}
				if r.key > 0 {
					return nil
				}
				l := []any{}
				for i := 0; i < n; i++ {
					l = append(l, example(schemaTypes[typ].elem, i%50))
				}
				l = append(l[:at:at], append([]any{[]any{7, true, []any{}}[x.All(3)]}, l[at:]...)...)
				return built(x, typ, x.All(2) == 1, l, r)
			}},
			{Name: "tree-keys", Desc: "all short key sequences of a tree", Run: func(x *X) error {
				return built(x, "Tree", x.All(2) == 1, keySeq(x, "Tree", []string{"a", "b", "", "mode"}, pick(4, 5)), route{x.All(4), x.All(5), x.AllInt([]int{0, 1})})
			}},
			{Name: "fields", Desc: "every field of every type, at every depth, replaced by every other value, or dropped", Run: func(x *X) error {
				typ := x.AllStr([]string{"Commit", "Tag", "Tree", "TreeEntry", "PersonInfo", "Tag_List"})
				v := deepCopy(example(typ, 0))
				var slots []slot
				collect(&v, "", &slots)
				sl := slots[x.All(len(slots))]
				*sl.v = full[x.All(len(full))]
				return built(x, typ, x.All(2) == 1, flatten(v), route{x.All(2), x.All(5), 0})
			}},
			{Name: "strings", Desc: "every string of the alphabets kept in every string field", Run: func(x *X) error {
				var all []string
				for _, l := range [][]string{names, emails, messages, otherLines, encodings, {"\n", "a\nb", "\x00", ""}} {
					all = append(all, l...)
				}
				typ := x.AllStr([]string{"Commit", "Tag", "TreeEntry", "PersonInfo", "String", "GpgSig", "String_List"})
				v := deepCopy(example(typ, 0))
				var slots []slot
				collect(&v, "", &slots)
				var ss []slot
				for _, s := range slots {
					if _, ok := (*s.v).(string); ok {
						ss = append(ss, s)
					}
				}
				*ss[x.All(len(ss))].v = x.AllStr(all)
				return built(x, typ, x.All(2) == 1, flatten(v), route{0, x.AllInt([]int{0, 1, 3}), 0})
			}},
			{Name: "reset", Desc: "a builder used again after Reset, after success or failure, knows nothing of before; what was built before stays", Run: func(x *X) error {
				typ := x.AllStr(schemaNames)
				repr := x.All(2) == 1
				t := schemaTypes[typ]
				nb := t.proto(repr).NewBuilder()
				r := route{x.AllInt([]int{0, 1}), x.AllInt([]int{0, 1, 2}), 0}
				v1 := example(typ, 1)
				k := x.All(3)
				switch k {
				case 1:
					v1 = chopped(v1)
				case 2:
					v1 = nil
				}
				if err := builtWith(x, nb, t, v1, r, repr); err != nil {
					return err
				}
				var before ipld.Node
				if t.conforms(v1) {
					before = nb.Build()
				}
				nb.Reset()
				if err := builtWith(x, nb, t, example(typ, 40), r, repr); err != nil {
					return fmt.Errorf("after Reset: %w", err)
				}
				if before != nil {
					d, err := dump(before, t.kind == "map")
					if err != nil || d != t.value(v1) {
						return fmt.Errorf("what was built before Reset is now %s (%v)", clip(d), err)
					}
				}
				x.Outcome("reset after case %d", k)
				return nil
			}},
			{Name: "beside", Desc: "two builders used at the same time, in turns: neither notices the other", Bound: 2, Thorough: 3, Run: func(x *X) error {
				typ := x.AllStr(schemaNames)
				ns := []int{0, 1, 2, 3}
				n, m := x.AllInt(ns), x.AllInt(ns)
				if k := schemaTypes[typ].kind; (n != 1 || m != 1) && (k == "string" || k == "link" || k == "bytes" || typ == "TreeEntry" || typ == "PersonInfo" || typ == "Tag") {
					return nil
				}
				repr := x.All(2) == 1
				if (typ == "Commit" || typ == "Tag_List") && !thorough() {
					if n > 1 || m > 1 || n == 0 && m == 0 {
						return nil
					}
					return beside(x, typ, repr, [2]any{lengthy(typ, n, 1), lengthy(typ, m, 500)}, route{x.All(2), 0, 0})
				}
				return beside(x, typ, repr, [2]any{lengthy(typ, n, 1), lengthy(typ, m, 500)}, route{x.AllInt([]int{0, 1}), 0, x.AllInt([]int{0, 2})})
			}},
			{Name: "constructors", Desc: "the typed constructors of the scalar types", Run: func(x *X) error {
				var all []string
				for _, l := range [][]string{names, messages} {
					all = append(all, l...)
				}
				s := x.AllStr(all)
				b, err := git.Type.Blob.FromBytes([]byte(s))
				if err != nil || !bytes.Equal(b.Bytes(), []byte(s)) {
					return fmt.Errorf("FromBytes(%q): %v", s, err)
				}
				g, err := git.Type.GpgSig.FromString(s)
				if err != nil || g.String() != s {
					return fmt.Errorf("GpgSig.FromString(%q): %v", s, err)
				}
				st, err := git.Type.String.FromString(s)
				if err != nil || st.String() != s {
					return fmt.Errorf("String.FromString(%q): %v", s, err)
				}
				return nil
			}},
		}})
}

func insertKV(m []kv, i int, e kv) []kv {
	return append(append(append([]kv{}, m[:i]...), e), m[i:]...)
}

// chopped leaves out the last part of a value, or makes it one of another kind.
func chopped(v any) any {
	switch v := v.(type) {
	case []kv:
		return append(append([]kv{}, v[:len(v)-1]...), kv{v[len(v)-1].k, 7})
	case []any:
		return append(append([]any{}, v[:len(v)-1]...), 7)
	}
	return true
}

var _ datamodel.Node = wrapped{}
