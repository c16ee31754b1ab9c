package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

func personPlain(p *Person) []kv {
	if p == nil {
		p = &Person{}
	}
	return personKV(p)
}

// refPlain is the value of an object according to the reference model.
func refPlain(o Object) (string, any) {
	switch o := o.(type) {
	case *fixed:
		return refPlain(o.Object)
	case Blob:
		return "Blob", wire("blob", o)
	case Tree:
		m := []kv{}
		for _, e := range o {
			m = append(m, kv{e.Name, []kv{{"mode", e.Mode}, {"hash", gitLink(fmt.Sprintf("%x", e.Sha))}}})
		}
		return "Tree", m
	case *Tag:
		return "Tag", []kv{{"object", gitLink(o.Object)}, {"type", o.Type}, {"tag", o.Tag}, {"tagger", personPlain(o.Tagger)}, {"message", o.Message}}
	case *Commit:
		ps, mts, os := []any{}, []any{}, []any{}
		for _, p := range o.Parents {
			ps = append(ps, gitLink(p))
		}
		for _, t := range o.Mergetags {
			msg := ""
			for _, l := range t.Msg {
				msg += l + "\n"
			}
			_, v := refPlain(&Tag{t.Object, t.Type, t.Tag, t.Tagger, msg})
			mts = append(mts, v)
		}
		for _, l := range o.Other {
			os = append(os, l)
		}
		m := []kv{{"tree", gitLink(o.Tree)}, {"parents", ps}, {"message", o.Message}}
		if o.Author != nil {
			m = append(m, kv{"author", personPlain(o.Author)})
		}
		if o.Committer != nil {
			m = append(m, kv{"committer", personPlain(o.Committer)})
		}
		if o.Encoding != nil {
			m = append(m, kv{"encoding", *o.Encoding})
		}
		if o.Sig != nil {
			s := o.Sig.First + "\n"
			for _, l := range o.Sig.Lines {
				s += l + "\n"
			}
			m = append(m, kv{"signature", s})
		}
		return "Commit", append(m, kv{"mergetag", mts}, kv{"other", os})
	}
	panic(harnessError{fmt.Errorf("refPlain %T", o)})
}

var missingKeys = []string{"", "x", "Tree", "tree ", "trees", "0", "-1", "mode\x00", "\xff", "object/x", "/", ".", "Message", "typ", "author.name", rep("k", 5000)}

var missingIdx = []int64{-1, math.MinInt64, math.MaxInt64, math.MaxInt32 + 1, 1 << 33, -5}

// oddKeys are key nodes that are neither strings nor ints.
func oddKeys() []ipld.Node {
	return []ipld.Node{datamodel.Null, datamodel.Absent, basicnode.NewBool(true), basicnode.NewFloat(0), basicnode.NewBytes([]byte("tree")), basicnode.NewLink(gitLink(hexA)), generic([]any{}), generic([]kv{})}
}

func stringNodes(s string) []ipld.Node {
	nb := git.Type.String.NewBuilder()
	must(nb.AssignString(s))
	gb := git.Type.GpgSig.NewBuilder()
	must(gb.AssignString(s))
	return []ipld.Node{basicnode.NewString(s), nb.Build(), wrapped{basicnode.NewString(s)}, gb.Build()}
}

// gone: an answer that says there is nothing.
func gone(n ipld.Node, err error, absentOK bool) error {
	if err != nil {
		return nil
	}
	if absentOK && n != nil && n.IsAbsent() {
		return nil
	}
	return fmt.Errorf("no error")
}

// lacks: n has nothing under the key k, however it is asked.
func lacks(n ipld.Node, k string) error {
	if n.Kind() != ipld.Kind_Map {
		return nil
	}
	if c, err := n.LookupByString(k); gone(c, err, false) != nil {
		return fmt.Errorf("LookupByString(%q), which is not there, gives no error", k)
	}
	if c, err := n.LookupBySegment(datamodel.PathSegmentOfString(k)); gone(c, err, false) != nil {
		return fmt.Errorf("LookupBySegment(%q), which is not there, gives no error", k)
	}
	for _, kn := range stringNodes(k) {
		if c, err := n.LookupByNode(kn); gone(c, err, false) != nil {
			return fmt.Errorf("LookupByNode(%q), which is not there, gives no error", k)
		}
	}
	return nil
}

// view compares all ways of reading a node with the value it has to have.
func view(n ipld.Node, t *styp, v any, repr bool, path string) error {
	fail := func(format string, a ...any) error {
		return fmt.Errorf("%s (%s, representation: %v): %s", path, t.name, repr, fmt.Sprintf(format, a...))
	}
	if n == nil {
		return fail("nil")
	}
	if n.IsAbsent() || n.IsNull() {
		return fail("absent or null")
	}
	kinds := map[string]ipld.Kind{"string": ipld.Kind_String, "bytes": ipld.Kind_Bytes, "link": ipld.Kind_Link, "list": ipld.Kind_List, "struct": ipld.Kind_Map, "map": ipld.Kind_Map}
	if n.Kind() != kinds[t.kind] {
		return fail("kind %v", n.Kind())
	}
	if n.Prototype() == nil {
		return fail("no prototype")
	}
	// other kinds
	if _, err := n.AsBool(); err == nil {
		return fail("AsBool gives no error")
	}
	if _, err := n.AsInt(); err == nil {
		return fail("AsInt gives no error")
	}
	if _, err := n.AsFloat(); err == nil {
		return fail("AsFloat gives no error")
	}
	if s, err := n.AsString(); (err == nil) != (t.kind == "string") {
		return fail("AsString: %v", err)
	} else if err == nil && s != v.(string) {
		return fail("AsString is %q, not %q", s, v)
	}
	if b, err := n.AsBytes(); (err == nil) != (t.kind == "bytes") {
		return fail("AsBytes: %v", err)
	} else if err == nil && !bytes.Equal(b, v.([]byte)) {
		return fail("AsBytes is %q, not %q", b, v)
	}
	if l, err := n.AsLink(); (err == nil) != (t.kind == "link") {
		return fail("AsLink: %v", err)
	} else if err == nil && dmAnyLink(l) != dmAnyLink(v.(ipld.Link)) {
		return fail("AsLink is %v, not %v", l, v)
	}
	isMap, isList := t.kind == "struct" || t.kind == "map", t.kind == "list"
	if it := n.MapIterator(); (it != nil) != isMap {
		return fail("MapIterator")
	}
	if it := n.ListIterator(); (it != nil) != isList {
		return fail("ListIterator")
	}
	for _, k := range oddKeys() {
		if m, err := n.LookupByNode(k); gone(m, err, false) != nil {
			return fail("LookupByNode(%v) gives no error", k.Kind())
		}
	}
	switch {
	case isMap:
		m := v.([]kv)
		opt := map[string]bool{}
		if !repr {
			for _, f := range t.fields {
				opt[f.name] = f.optional
			}
		}
		for _, e := range m {
			sub := t.elem
			if f := t.field(e.k); f != nil {
				sub = f.typ
			}
			st := schemaTypes[sub]
			p := path + "/" + firstN(e.k, 20)
			c, err := n.LookupByString(e.k)
			if err != nil {
				return fail("LookupByString(%q): %v", e.k, err)
			}
			if err := view(c, st, e.v, repr, p); err != nil {
				return err
			}
			for i, kn := range stringNodes(e.k) {
				c, err := n.LookupByNode(kn)
				if err != nil {
					return fail("LookupByNode(%q, %d): %v", e.k, i, err)
				}
				if d, err := dump(c, false); err != nil || d != st.value(e.v) {
					return fail("LookupByNode(%q, %d) gives %s", e.k, i, clip(d))
				}
			}
			c, err = n.LookupBySegment(datamodel.PathSegmentOfString(e.k))
			if err != nil {
				return fail("LookupBySegment(%q): %v", e.k, err)
			}
			if d, err := dump(c, false); err != nil || d != st.value(e.v) {
				return fail("LookupBySegment(%q) gives %s", e.k, clip(d))
			}
		}
		keys := missingKeys
		for _, f := range t.fields {
			keys = append(keys[:len(keys):len(keys)], f.name)
		}
		for _, k := range keys {
			if get(m, k) >= 0 {
				continue
			}
			if c, err := n.LookupByString(k); gone(c, err, opt[k]) != nil {
				return fail("LookupByString(%q), which is not there, gives no error", k)
			}
			if c, err := n.LookupBySegment(datamodel.PathSegmentOfString(k)); gone(c, err, opt[k]) != nil {
				return fail("LookupBySegment(%q), which is not there, gives no error", k)
			}
			for _, kn := range stringNodes(k) {
				if c, err := n.LookupByNode(kn); gone(c, err, opt[k]) != nil {
					return fail("LookupByNode(%q), which is not there, gives no error", k)
				}
			}
		}
		for _, i := range append([]int64{0, 1, 2}, missingIdx...) {
			if _, err := n.LookupByIndex(i); err == nil {
				return fail("LookupByIndex(%d) of a map gives no error", i)
			}
			if _, err := n.LookupByNode(basicnode.NewInt(i)); err == nil {
				return fail("LookupByNode(%d) of a map gives no error", i)
			}
			if i < 0 {
				continue // a segment cannot hold it
			}
			if get(m, strconv.FormatInt(i, 10)) < 0 {
				if c, err := n.LookupBySegment(datamodel.PathSegmentOfInt(i)); gone(c, err, false) != nil {
					return fail("LookupBySegment(%d) of a map gives no error", i)
				}
			}
		}
		it := n.MapIterator()
		seen := map[string]bool{}
		count, present := int64(0), 0
		for !it.Done() {
			if count > int64(len(m)+len(t.fields)) {
				return fail("the iterator does not end")
			}
			k, c, err := it.Next()
			if err != nil {
				return fail("iterating: %v", err)
			}
			count++
			ks, err := k.AsString()
			if err != nil {
				return fail("a key: %v", err)
			}
			if seen[ks] {
				return fail("the iterator gives %q twice", ks)
			}
			seen[ks] = true
			i := get(m, ks)
			if i < 0 {
				if !c.IsAbsent() || !opt[ks] {
					return fail("the iterator gives %q, which is not there", ks)
				}
				continue
			}
			if t.kind == "map" && i != present {
				return fail("the iterator gives entry %d as number %d", i, present)
			}
			present++
			sub := t.elem
			if f := t.field(ks); f != nil {
				sub = f.typ
			}
			if d, err := dump(c, false); err != nil || d != schemaTypes[sub].value(m[i].v) {
				return fail("the iterator gives %s for %q", clip(d), ks)
			}
		}
		if present != len(m) {
			return fail("the iterator gives %d of %d entries", present, len(m))
		}
		if n.Length() != count {
			return fail("Length %d, but %d iterated", n.Length(), count)
		}
		for i := 0; i < 3; i++ {
			if k, c, err := it.Next(); err == nil {
				return fail("iterating past the end gives %v %v and no error", k, c)
			}
			if !it.Done() {
				return fail("not done after the end")
			}
		}
	case isList:
		l := v.([]any)
		st := schemaTypes[t.elem]
		if n.Length() != int64(len(l)) {
			return fail("Length %d, not %d", n.Length(), len(l))
		}
		for i, e := range l {
			c, err := n.LookupByIndex(int64(i))
			if err != nil {
				return fail("LookupByIndex(%d): %v", i, err)
			}
			if i < 4 || i == len(l)-1 {
				if err := view(c, st, e, repr, fmt.Sprintf("%s/%d", path, i)); err != nil {
					return err
				}
			}
			for k, f := range []func() (ipld.Node, error){
				func() (ipld.Node, error) { return n.LookupByNode(basicnode.NewInt(int64(i))) },
				func() (ipld.Node, error) { return n.LookupBySegment(datamodel.PathSegmentOfInt(int64(i))) },
				func() (ipld.Node, error) { return n.LookupBySegment(datamodel.PathSegmentOfString(strconv.Itoa(i))) },
				func() (ipld.Node, error) { return n.LookupByIndex(int64(i)) },
			} {
				c, err := f()
				if err != nil {
					return fail("lookup %d of index %d: %v", k, i, err)
				}
				if d, err := dump(c, false); err != nil || d != st.value(e) {
					return fail("lookup %d of index %d gives %s", k, i, clip(d))
				}
			}
		}
		for _, i := range append([]int64{int64(len(l)), int64(len(l)) + 1}, missingIdx...) {
			if _, err := n.LookupByIndex(i); err == nil {
				return fail("LookupByIndex(%d) of %d gives no error", i, len(l))
			}
			if _, err := n.LookupByNode(basicnode.NewInt(i)); err == nil {
				return fail("LookupByNode(%d) of %d gives no error", i, len(l))
			}
			if i >= 0 {
				if _, err := n.LookupBySegment(datamodel.PathSegmentOfInt(i)); err == nil {
					return fail("LookupBySegment(%d) of %d gives no error", i, len(l))
				}
			}
			if _, err := n.LookupBySegment(datamodel.PathSegmentOfString(strconv.FormatInt(i, 10))); err == nil {
				return fail("LookupBySegment(%q) of %d gives no error", strconv.FormatInt(i, 10), len(l))
			}
		}
		for _, k := range []string{"", "x", "1.5", "0x0", "99999999999999999999", "-1"} {
			if _, err := n.LookupBySegment(datamodel.PathSegmentOfString(k)); err == nil {
				return fail("LookupBySegment(%q) gives no error", k)
			}
		}
		for _, k := range []string{"", "x", "0", "1"} {
			if _, err := n.LookupByString(k); err == nil {
				return fail("LookupByString(%q) of a list gives no error", k)
			}
		}
		it := n.ListIterator()
		for i, e := range l {
			if it.Done() {
				return fail("the iterator ends at %d of %d", i, len(l))
			}
			j, c, err := it.Next()
			if err != nil || j != int64(i) {
				return fail("the iterator gives index %d for %d: %v", j, i, err)
			}
			if d, err := dump(c, false); err != nil || d != st.value(e) {
				return fail("the iterator gives %s for %d", clip(d), i)
			}
		}
		for i := 0; i < 3; i++ {
			if !it.Done() {
				return fail("not done after %d elements", len(l))
			}
			if _, _, err := it.Next(); err == nil {
				return fail("iterating past the end gives no error")
			}
		}
	default:
		if n.Length() != -1 {
			return fail("Length %d of a scalar", n.Length())
		}
		for _, k := range []string{"", "x", "tree", "0"} {
			if _, err := n.LookupByString(k); err == nil {
				return fail("LookupByString(%q) of a scalar gives no error", k)
			}
			if _, err := n.LookupBySegment(datamodel.PathSegmentOfString(k)); err == nil {
				return fail("LookupBySegment(%q) of a scalar gives no error", k)
			}
			for _, kn := range stringNodes(k) {
				if _, err := n.LookupByNode(kn); err == nil {
					return fail("LookupByNode(%q) of a scalar gives no error", k)
				}
			}
		}
		for _, i := range append([]int64{0, 1}, missingIdx...) {
			if _, err := n.LookupByIndex(i); err == nil {
				return fail("LookupByIndex(%d) of a scalar gives no error", i)
			}
			if i >= 0 {
				if _, err := n.LookupBySegment(datamodel.PathSegmentOfInt(i)); err == nil {
					return fail("LookupBySegment(%d) of a scalar gives no error", i)
				}
			}
		}
	}
	return nil
}

// views checks a decoded object from all sides.
func views(x *X, o Object) error {
	in := Wire(o)
	x.Input(in)
	n, err := git.ParseObjectFromBuffer(in)
	if err != nil {
		return fmt.Errorf("a well-formed %s is rejected: %v", o.Typ(), err)
	}
	typ, v := refPlain(o)
	t := schemaTypes[typ]
	x.Outcome("%s", typ)
	if err := view(n, t, v, false, ""); err != nil {
		return err
	}
	if err := view(reprOf(n), t, v, true, ""); err != nil {
		return err
	}
	return accessors(n, v)
}

// accessors checks the typed lookups and iterators of lists and trees.
func accessors(n ipld.Node, v any) error {
	switch g := n.(type) {
	case git.Commit:
		m := v.([]kv)
		idx := func(l int) []int64 { return append([]int64{int64(l), int64(l) + 1}, missingIdx...) }
		ps := m[get(m, "parents")].v.([]any)
		for i, p := range ps {
			if got := g.FieldParents().Lookup(int64(i)); got == nil || dmAnyLink(got.Link()) != dmAnyLink(p.(ipld.Link)) {
				return fmt.Errorf("typed parent %d", i)
			}
			if got := g.FieldParents().LookupMaybe(int64(i)); got == nil || !got.Exists() || dmAnyLink(got.Must().Link()) != dmAnyLink(p.(ipld.Link)) {
				return fmt.Errorf("typed parent %d, maybe", i)
			}
		}
		for _, i := range idx(len(ps)) {
			if got := g.FieldParents().Lookup(i); got != nil {
				return fmt.Errorf("typed parent %d of %d", i, len(ps))
			}
			g.FieldParents().LookupMaybe(i)
		}
		it := g.FieldParents().Iterator()
		for i, p := range ps {
			if it.Done() {
				return fmt.Errorf("typed parents end at %d", i)
			}
			if j, l := it.Next(); j != int64(i) || dmAnyLink(l.Link()) != dmAnyLink(p.(ipld.Link)) {
				return fmt.Errorf("typed parent iterator at %d", i)
			}
		}
		if !it.Done() {
			return fmt.Errorf("typed parents do not end")
		}
		if _, l := it.Next(); l != nil {
			return fmt.Errorf("typed parents go on after the end")
		}
		os := m[get(m, "other")].v.([]any)
		for i, o := range os {
			if got := g.FieldOther().Lookup(int64(i)); got == nil || got.String() != o.(string) {
				return fmt.Errorf("typed other line %d", i)
			}
			if got := g.FieldOther().LookupMaybe(int64(i)); got == nil || !got.Exists() || got.Must().String() != o.(string) {
				return fmt.Errorf("typed other line %d, maybe", i)
			}
		}
		for _, i := range idx(len(os)) {
			if got := g.FieldOther().Lookup(i); got != nil {
				return fmt.Errorf("typed other line %d of %d", i, len(os))
			}
			g.FieldOther().LookupMaybe(i)
		}
		oit := g.FieldOther().Iterator()
		for i, o := range os {
			if j, s := oit.Next(); j != int64(i) || s.String() != o.(string) {
				return fmt.Errorf("typed other line iterator at %d", i)
			}
		}
		if _, s := oit.Next(); s != nil || !oit.Done() {
			return fmt.Errorf("typed other lines go on after the end")
		}
		mts := m[get(m, "mergetag")].v.([]any)
		for i, t := range mts {
			got := g.FieldMergetag().Lookup(int64(i))
			if got == nil {
				return fmt.Errorf("typed mergetag %d", i)
			}
			if d, err := dump(got, false); err != nil || d != schemaTypes["Tag"].value(t) {
				return fmt.Errorf("typed mergetag %d", i)
			}
			mb := g.FieldMergetag().LookupMaybe(int64(i))
			if mb == nil || !mb.Exists() {
				return fmt.Errorf("typed mergetag %d, maybe", i)
			}
			if d, err := dump(mb.Must(), false); err != nil || d != schemaTypes["Tag"].value(t) {
				return fmt.Errorf("typed mergetag %d, maybe", i)
			}
		}
		for _, i := range idx(len(mts)) {
			if got := g.FieldMergetag().Lookup(i); got != nil {
				return fmt.Errorf("typed mergetag %d of %d", i, len(mts))
			}
			g.FieldMergetag().LookupMaybe(i)
		}
		mit := g.FieldMergetag().Iterator()
		for i := range mts {
			if j, t := mit.Next(); j != int64(i) || t == nil {
				return fmt.Errorf("typed mergetag iterator at %d", i)
			}
		}
		if _, t := mit.Next(); t != nil || !mit.Done() {
			return fmt.Errorf("typed mergetags go on after the end")
		}
		for _, f := range []struct {
			name          string
			exists, is, z bool
			node          ipld.Node
		}{
			{"author", g.FieldAuthor().Exists(), g.FieldAuthor().IsAbsent(), g.FieldAuthor().IsNull(), g.FieldAuthor().AsNode()},
			{"committer", g.FieldCommitter().Exists(), g.FieldCommitter().IsAbsent(), g.FieldCommitter().IsNull(), g.FieldCommitter().AsNode()},
			{"encoding", g.FieldEncoding().Exists(), g.FieldEncoding().IsAbsent(), g.FieldEncoding().IsNull(), g.FieldEncoding().AsNode()},
			{"signature", g.FieldSignature().Exists(), g.FieldSignature().IsAbsent(), g.FieldSignature().IsNull(), g.FieldSignature().AsNode()},
		} {
			i := get(m, f.name)
			if f.exists != (i >= 0) || f.is != (i < 0) || f.z || f.node.IsAbsent() != (i < 0) {
				return fmt.Errorf("typed %s: exists %v, absent %v, null %v", f.name, f.exists, f.is, f.z)
			}
			if i >= 0 {
				if d, err := dump(f.node, false); err != nil || d != schemaTypes[schemaTypes["Commit"].field(f.name).typ].value(m[i].v) {
					return fmt.Errorf("typed %s is %s", f.name, clip(d))
				}
			}
		}
	case git.Tree:
		m := v.([]kv)
		key := func(s string) git.String {
			k, err := git.Type.String.FromString(s)
			must(err)
			return k
		}
		for _, e := range m {
			got := g.Lookup(key(e.k))
			if got == nil {
				return fmt.Errorf("typed lookup of %q", e.k)
			}
			if d, err := dump(got, false); err != nil || d != schemaTypes["TreeEntry"].value(e.v) {
				return fmt.Errorf("typed lookup of %q gives %s", e.k, clip(d))
			}
			mb := g.LookupMaybe(key(e.k))
			if !mb.Exists() {
				return fmt.Errorf("typed lookup of %q, maybe", e.k)
			}
			if d, err := dump(mb.Must(), false); err != nil || d != schemaTypes["TreeEntry"].value(e.v) {
				return fmt.Errorf("typed lookup of %q, maybe, gives %s", e.k, clip(d))
			}
		}
		for _, k := range missingKeys {
			if get(m, k) < 0 {
				if got := g.Lookup(key(k)); got != nil {
					return fmt.Errorf("typed lookup of %q, which is not there", k)
				}
				if got := g.LookupMaybe(key(k)); got.Exists() || !got.IsAbsent() {
					return fmt.Errorf("typed lookup of %q, which is not there, maybe", k)
				}
			}
		}
		it := g.Iterator()
		for range m {
			it.Next()
		}
		if k, e := it.Next(); k != nil || e != nil || !it.Done() {
			return fmt.Errorf("the typed iterator goes on after the end")
		}
	}
	return nil
}

func init() {
	// containers of several sizes, for iterator histories
	boxes := func() []struct {
		o    Object
		path []string
	} {
		type b = struct {
			o    Object
			path []string
		}
		c := fullCommit()
		c.Other = []string{"a", "b"}
		small := &Commit{Tree: hexA, Message: "m"}
		return []b{{Tree{}, nil}, {Tree{{"1", "a", shas[0]}}, nil}, {Tree{{"1", "a", shas[0]}, {"2", "b", shas[1]}}, nil}, {c, []string{"parents"}}, {c, []string{"other"}}, {c, []string{"mergetag"}}, {small, []string{"parents"}},
			{Tree{{"1", "a", shas[0]}}, []string{"a"}}, {&Tag{hexA, "commit", "v", person1(), ""}, nil}, {c, []string{"author"}}, {small, nil}, {c, nil}}
	}()
	register(&Property{ID: "C18",
		Bounds: map[string]any{"objects": "all commit shapes, all sample objects, and values with up to 1 (thorough 2) deviations; trees of many sizes", "missing keys": len(missingKeys), "kin": "pairs of names that some folding, cleaning or hashing takes for one another", "indexes": "all present ones, the next two, and extremes", "iterator histories": "all sequences of up to 6 (8) operations on two iterators of 12 containers"},
		Scenarios: []*Scenario{
			{Name: "objects", Desc: "all sample objects", Run: func(x *X) error {
				os := ioObjects()
				return views(x, os[x.All(len(os))])
			}},
			{Name: "shapes", Desc: "commits with every combination of parts", Run: func(x *X) error {
				s := shape{x.All(4), x.All(3), x.All(3), x.All(2) == 1, x.All(2) == 1, x.All(2) == 1, x.All(2) == 1}
				return views(x, s.fill(x))
			}},
			{Name: "values", Desc: "commits, tags and trees with values varied", Bound: 1, Thorough: 2, Run: func(x *X) error {
				switch x.All(3) {
				case 0:
					return views(x, shape{1, 1, 1, true, true, true, true}.fill(x))
				case 1:
					t := &Tag{x.Str(hexes), x.Str(tagTypes), x.Str(tagNames), nil, x.Str(messages)}
					if x.All(2) == 1 {
						t.Tagger = genPerson(x)
					}
					return views(x, t)
				default:
					t := Tree{}
					for i := 0; i < 2; i++ {
						name := fmt.Sprint("n", i)
						if k := x.Choose(len(entryNames) + 1); k > 0 {
							name = entryNames[k-1]
						}
						t = append(t, Entry{x.Str(modes), name, x.Str(shas)})
					}
					return views(x, t)
				}
			}},
			{Name: "kin", Desc: "trees with two names that might be taken for one another, and one of them alone", Run: func(x *X) error {
				a, b, ok := kin(x)
				if !ok {
					return nil
				}
				t := Tree{{"100644", a, shas[0]}, {"40000", "zz", shas[2]}, {"100755", b, shas[1]}}
				t = t[:2+x.All(2)]
				if err := views(x, t); err != nil || len(t) == 3 || b == "zz" {
					return err
				}
				n, err := git.ParseObjectFromBuffer(Wire(t))
				if err != nil {
					return err
				}
				return first(lacks(n, b), lacks(reprOf(n), b))
			}},
			{Name: "kin-fields", Desc: "names that might be taken for a field's name", Run: func(x *X) error {
				typ := x.AllStr([]string{"Commit", "Tag", "PersonInfo", "TreeEntry"})
				t := schemaTypes[typ]
				repr := x.All(2) == 1
				nb := t.proto(repr).NewBuilder()
				if err := put(nb, t, example(typ, x.All(3)), route{0, 0, 0}); err != nil {
					return fmt.Errorf("building an ordinary %s: %v", typ, err)
				}
				f := t.fields[x.All(len(t.fields))].name
				k := kinForms[x.All(len(kinForms))](f)
				for _, o := range t.fields {
					if k == o.name {
						return nil
					}
				}
				return lacks(nb.Build(), k)
			}},
			{Name: "trees", Desc: "trees of many sizes, so that their table grows", Run: func(x *X) error {
				n := x.AllInt(around([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 129, 257}, 1100))
				t := Tree{}
				for i := 0; i < n; i++ {
					t = append(t, Entry{fmt.Sprint(i), fmt.Sprint("n", i*7919%n), raw(hexN(i))})
				}
				return views(x, t)
			}},
			{Name: "lists", Desc: "commits with lists of many lengths", Run: func(x *X) error {
				n := x.AllInt(around([]int{3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}, 1100))
				c := &Commit{Tree: hexA, Author: person1(), Message: "m\n"}
				k := x.All(4)
				for i := 0; i < n; i++ {
					switch k {
					case 0:
						c.Parents = append(c.Parents, hexN(i))
					case 1:
						c.Other = append(c.Other, fmt.Sprintf("h%d v", i))
					case 2:
						c.Mergetags = append(c.Mergetags, MergeTag{hexN(i), "commit", fmt.Sprint("t", i), person1(), []string{fmt.Sprint(" m", i)}})
					case 3:
						c.Parents = append(c.Parents, hexN(i))
						c.Other = append(c.Other, fmt.Sprintf("h%d v", n-i))
						c.Mergetags = append(c.Mergetags, MergeTag{hexN(n - i), "commit", fmt.Sprint("t", i), nil, []string{fmt.Sprint(" m", i)}})
					}
				}
				return views(x, c)
			}},
			{Name: "built", Desc: "nodes from every builder", Run: func(x *X) error {
				typ := x.AllStr(schemaNames)
				t := schemaTypes[typ]
				repr := x.All(2) == 1
				v := example(typ, x.All(3))
				nb := t.proto(repr).NewBuilder()
				x.State(typ, repr)
				if err := put(nb, t, v, route{x.All(2), x.All(5), 0}); err != nil {
					return fmt.Errorf("building an ordinary %s: %v", typ, err)
				}
				n := nb.Build()
				if err := view(n, t, v, false, ""); err != nil {
					return err
				}
				return view(reprOf(n), t, v, true, "")
			}},
			{Name: "texts", Desc: "nodes from every builder, with one text in all places that take one: nothing, every constant of the code, and odd ones; and lists and maps of no and one entry", Run: func(x *X) error {
				typ := x.AllStr(schemaNames)
				t := schemaTypes[typ]
				repr := x.All(2) == 1
				text := x.AllStr(oddTexts)
				v := exampleOf(typ, text, x.All(2))
				nb := t.proto(repr).NewBuilder()
				x.State(typ, repr, text)
				if err := put(nb, t, v, route{}); err != nil {
					return fmt.Errorf("building a %s with texts %q: %v", typ, text, err)
				}
				n := nb.Build()
				return first(view(n, t, v, false, ""), view(reprOf(n), t, v, true, ""))
			}},
			{Name: "iterators", Desc: "all histories of operations on two iterators of one node", Run: func(x *X) error {
				b := boxes[x.All(len(boxes))]
				n, err := git.ParseObjectFromBuffer(Wire(b.o))
				if err != nil {
					return err
				}
				if x.All(2) == 1 {
					n = reprOf(n)
				}
				for _, p := range b.path {
					if n, err = n.LookupByString(p); err != nil {
						return err
					}
				}
				return iterHistory(x, n, pick(6, 8))
			}},
		}})
}

// oddTexts are what a text may be that some shortcut could treat specially.
var oddTexts = func() []string {
	out := []string{"", " ", "\n", "\x00", "a\nb", "\xff\xfe", "0", "-1", "true", "null", "1.5", hexA, "baf4bcfg3m6ddiv4v2yvtsyu2ceqtwpkalzcdg3y", rep("x", 70000), rep("é", 200)}
	seen := map[string]bool{}
	for _, s := range out {
		seen[s] = true
	}
	for _, s := range litStrings {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}()

// exampleOf is a value of a type with the text wherever there is one, and n entries
// in every list and map.
func exampleOf(typ, text string, n int) any {
	t := schemaTypes[typ]
	switch t.kind {
	case "string":
		return text
	case "bytes":
		return []byte(text)
	case "link":
		return gitLink(hexN(n))
	case "list":
		out := []any{}
		for i := 0; i < n; i++ {
			out = append(out, exampleOf(t.elem, text, n))
		}
		return out
	case "map":
		out := []kv{}
		for i := 0; i < n; i++ {
			out = append(out, kv{text, exampleOf(t.elem, text, n)})
		}
		return out
	}
	var m []kv
	for _, f := range t.fields {
		m = append(m, kv{f.name, exampleOf(f.typ, text, n)})
	}
	return m
}

// iterHistory runs a sequence of operations on two iterators and compares with
// positions in the sequence that a first pass gives.
func iterHistory(x *X, n ipld.Node, depth int) error {
	var all []string
	if n.Kind() == ipld.Kind_List {
		for it := n.ListIterator(); !it.Done(); {
			_, v, err := it.Next()
			if err != nil {
				return err
			}
			d, err := dump(v, false)
			if err != nil {
				return err
			}
			all = append(all, d)
		}
	} else {
		for it := n.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			if err != nil {
				return err
			}
			ks, _ := k.AsString()
			d := "absent"
			if !v.IsAbsent() {
				if d, err = dump(v, false); err != nil {
					return err
				}
			}
			all = append(all, ks+"="+d)
		}
	}
	if int64(len(all)) != n.Length() {
		return fmt.Errorf("Length %d, %d iterated", n.Length(), len(all))
	}
	next := make([]func() (string, error), 2)
	done := make([]func() bool, 2)
	pos := []int{0, 0}
	open := func(i int) {
		pos[i] = 0
		if n.Kind() == ipld.Kind_List {
			it := n.ListIterator()
			done[i] = it.Done
			next[i] = func() (string, error) {
				j, v, err := it.Next()
				if err != nil {
					return "", err
				}
				if int(j) != pos[i] {
					return "", fmt.Errorf("index %d for %d", j, pos[i])
				}
				return dump(v, false)
			}
			return
		}
		it := n.MapIterator()
		done[i] = it.Done
		next[i] = func() (string, error) {
			k, v, err := it.Next()
			if err != nil {
				return "", err
			}
			ks, err := k.AsString()
			if err != nil {
				return "", err
			}
			if v.IsAbsent() {
				return ks + "=absent", nil
			}
			d, err := dump(v, false)
			return ks + "=" + d, err
		}
	}
	open(0)
	open(1)
	for s := 0; s < depth; s++ {
		op := x.All(5)
		i := op % 2
		x.State(n.Kind(), len(all), pos[0], pos[1], op)
		switch {
		case op == 4:
			open(1)
		case op < 2:
			d, err := next[i]()
			if pos[i] >= len(all) {
				if err == nil {
					return fmt.Errorf("step %d: past the end without error", s)
				}
			} else {
				if err != nil {
					return fmt.Errorf("step %d: %v", s, err)
				}
				if d != all[pos[i]] {
					return fmt.Errorf("step %d: iterator %d at %d gives %s, not %s", s, i, pos[i], clip(d), clip(all[pos[i]]))
				}
				pos[i]++
			}
		default:
			if done[i]() != (pos[i] >= len(all)) {
				return fmt.Errorf("step %d: Done of iterator %d at %d of %d is %v", s, i, pos[i], len(all), done[i]())
			}
		}
	}
	return nil
}
