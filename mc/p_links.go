package main

import (
	"bytes"
	"fmt"

	"github.com/ipfs/go-cid"
	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

type fakeLink struct{ s string }

func (f fakeLink) Prototype() datamodel.LinkPrototype { return nil }
func (f fakeLink) String() string                     { return f.s }
func (f fakeLink) Binary() string                     { return f.s }

// rawCid makes a CID from bytes that are written out here.
func rawCid(b string) cid.Cid {
	c, err := cid.Cast([]byte(b))
	must(err)
	return c
}

type linkCase struct {
	name string
	link ipld.Link
	ok   bool // names a git object by SHA-1
	open bool // not decided by the property
}

var sha1Raw = raw(hexA)

func linkCases() []linkCase {
	d := func(n int) string { return rep("\xab", n) }
	return []linkCase{
		{"git-raw sha1", cidlink.Link{Cid: rawCid("\x01\x78\x11\x14" + sha1Raw)}, true, false},
		{"sha2-256, v0", cidlink.Link{Cid: rawCid("\x12\x20" + d(32))}, false, false},
		{"git-raw sha2-256", cidlink.Link{Cid: rawCid("\x01\x78\x12\x20" + d(32))}, false, false},
		{"dag-cbor sha2-256", cidlink.Link{Cid: rawCid("\x01\x71\x12\x20" + d(32))}, false, false},
		{"raw identity of 20 bytes", cidlink.Link{Cid: rawCid("\x01\x55\x00\x14" + d(20))}, false, false},
		{"git-raw identity of 20 bytes", cidlink.Link{Cid: rawCid("\x01\x78\x00\x14" + d(20))}, false, false},
		{"git-raw identity, empty", cidlink.Link{Cid: rawCid("\x01\x78\x00\x00")}, false, false},
		{"git-raw identity of 3 bytes", cidlink.Link{Cid: rawCid("\x01\x78\x00\x03abc")}, false, false},
		{"git-raw sha2-256 cut to 20 bytes", cidlink.Link{Cid: rawCid("\x01\x78\x12\x14" + d(20))}, false, false},
		{"git-raw sha2-512", cidlink.Link{Cid: rawCid("\x01\x78\x13\x40" + d(64))}, false, false},
		{"git-raw sha3-256", cidlink.Link{Cid: rawCid("\x01\x78\x16\x20" + d(32))}, false, false},
		{"git-raw blake2b-160", cidlink.Link{Cid: rawCid("\x01\x78\x94\xe4\x02\x14" + d(20))}, false, false},
		{"git-raw sha1 cut to 19 bytes", cidlink.Link{Cid: rawCid("\x01\x78\x11\x13" + d(19))}, false, false},
		{"git-raw sha1 of 4 bytes", cidlink.Link{Cid: rawCid("\x01\x78\x11\x04" + d(4))}, false, false},
		{"git-raw sha1 of 21 bytes", cidlink.Link{Cid: rawCid("\x01\x78\x11\x15" + d(21))}, false, false},
		{"git-raw sha1 of 0 bytes", cidlink.Link{Cid: rawCid("\x01\x78\x11\x00")}, false, false},
		{"raw sha1", cidlink.Link{Cid: rawCid("\x01\x55\x11\x14" + d(20))}, true, true},
		{"undefined", cidlink.Link{}, false, false},
		{"not a CID", fakeLink{"x"}, false, false},
		{"not a CID, 20 bytes", fakeLink{d(20)}, false, false},
		{"pointer to a CID link", &cidlink.Link{Cid: rawCid("\x01\x78\x11\x14" + sha1Raw)}, true, true},
	}
}

// generic makes a basicnode value.
type kv struct {
	k string
	v any
}

func generic(v any) ipld.Node {
	nb := basicnode.Prototype.Any.NewBuilder()
	must(assign(nb, v))
	return nb.Build()
}

// assign fills an assembler from plain Go values: string, []byte, ipld.Link,
// []any, []kv (a map in this order), nil, int, bool, float64, ipld.Node.
func assign(na ipld.NodeAssembler, v any) error {
	switch v := v.(type) {
	case nil:
		return na.AssignNull()
	case string:
		return na.AssignString(v)
	case []byte:
		return na.AssignBytes(v)
	case int:
		return na.AssignInt(int64(v))
	case bool:
		return na.AssignBool(v)
	case float64:
		return na.AssignFloat(v)
	case ipld.Node:
		return na.AssignNode(v)
	case ipld.Link:
		return na.AssignLink(v)
	case []any:
		la, err := na.BeginList(int64(len(v)))
		if err != nil {
			return err
		}
		for _, e := range v {
			if err := assign(la.AssembleValue(), e); err != nil {
				return err
			}
		}
		return la.Finish()
	case []kv:
		ma, err := na.BeginMap(int64(len(v)))
		if err != nil {
			return err
		}
		for _, e := range v {
			va, err := ma.AssembleEntry(e.k)
			if err != nil {
				return err
			}
			if err := assign(va, e.v); err != nil {
				return err
			}
		}
		return ma.Finish()
	}
	panic(harnessError{fmt.Errorf("assign %T", v)})
}

func gitLink(hexs string) ipld.Link {
	return cidlink.Link{Cid: rawCid("\x01\x78\x11\x14" + raw(hexs))}
}

func personKV(p *Person) []kv {
	return []kv{{"date", p.Date}, {"timezone", p.TZ}, {"email", p.Email}, {"name", p.Name}}
}

// withLink builds a node that has the given link in one place.
func withLink(place int, l ipld.Link) (typ string, v []kv) {
	p := person1()
	commit := func(tree ipld.Link, parents []any, mts []any) []kv {
		return []kv{{"tree", tree}, {"parents", parents}, {"message", "m\n"}, {"author", personKV(p)}, {"committer", personKV(p)}, {"mergetag", mts}, {"other", []any{}}}
	}
	tag := func(l ipld.Link) []kv {
		return []kv{{"object", l}, {"type", "commit"}, {"tag", "v"}, {"tagger", personKV(p)}, {"message", " m\n"}}
	}
	g := gitLink(hexB)
	switch place {
	case 0:
		return "commit", commit(l, []any{}, []any{})
	case 1:
		return "commit", commit(g, []any{l}, []any{})
	case 2:
		return "commit", commit(g, []any{g, l, g}, []any{})
	case 3:
		return "commit", commit(g, []any{g}, []any{tag(l)})
	case 4:
		return "commit", commit(g, []any{g}, []any{tag(g), tag(l)})
	case 5:
		return "tag", tag(l)
	case 6:
		return "tree", []kv{{"a", []kv{{"mode", "100644"}, {"hash", l}}}}
	default:
		return "tree", []kv{{"a", []kv{{"mode", "100644"}, {"hash", g}}}, {"b", []kv{{"mode", "40000"}, {"hash", l}}}, {"c", []kv{{"mode", "100644"}, {"hash", g}}}}
	}
}

func init() {
	register(&Property{ID: "C08",
		Bounds: map[string]any{"ids": "every byte value at every one of the 20 positions, over two backgrounds, all values of the first two bytes (thorough: and of the last two), ids made of the code's constants, and pairs of neighbouring bytes over {00,0a,20,ff}, in each of 5 reference positions", "links": len(linkCases()), "places": 8},
		Scenarios: []*Scenario{
			{Name: "ids", Desc: "every byte value at every position of an id, in every place that holds a reference", Run: func(x *X) error {
				h := []byte(raw([]string{hexA, rep("0", 40), rep("f", 40)}[x.All(3)]))
				i := x.All(20)
				h[i] = byte(x.All(256))
				return idEverywhere(x, h)
			}},
			{Name: "id-pairs", Desc: "pairs of structural bytes at neighbouring positions", Run: func(x *X) error {
				h := []byte(raw(hexB))
				al := []byte{0, '\n', ' ', 0xff, 0x7f, 0x80, '\r'}
				i := x.All(19)
				h[i], h[i+1] = al[x.All(len(al))], al[x.All(len(al))]
				if thorough() {
					j := x.All(20)
					h[j] = al[x.All(len(al))]
				}
				return idEverywhere(x, h)
			}},
			{Name: "first-last", Desc: "every value of the first two bytes (thorough: and of the last two)", Run: func(x *X) error {
				h := []byte(raw(hexA))
				i := 18 * x.All(pick(1, 2))
				h[i], h[i+1] = byte(x.All(256)), byte(x.All(256))
				return idEverywhere(x, h)
			}},
			{Name: "known", Desc: "ids that code might treat in a way of its own, and those made of its constants", Run: func(x *X) error {
				ids := wellKnownIDs()
				return idEverywhere(x, []byte(ids[x.All(len(ids))]))
			}},
			{Name: "encode-ids", Desc: "nodes built with every byte value at every position of a link are written with that id", Run: func(x *X) error {
				h := []byte(raw(hexA))
				h[x.All(20)] = byte(x.All(256))
				place := x.All(8)
				typ, v := withLink(place, cidlink.Link{Cid: rawCid("\x01\x78\x11\x14" + string(h))})
				n, err := buildAs(typ, v, x.All(3))
				if err != nil {
					return fmt.Errorf("cannot build: %v", err)
				}
				out, err := encode(n)
				x.Input(out)
				x.Outcome("place %d", place)
				if err != nil {
					return fmt.Errorf("encoding fails: %v", err)
				}
				want := []byte(fmt.Sprintf("%x", h))
				if typ == "tree" {
					want = h
				}
				if !bytes.Contains(out, want) {
					return fmt.Errorf("the id %x is not in the encoded %s", h, typ)
				}
				j := judge(out)
				if j.v != mustAccept {
					return fmt.Errorf("not a well-formed %s: %s", typ, j.why)
				}
				back, err := git.ParseObject(bytes.NewReader(out))
				if err != nil {
					return err
				}
				a, err := dump(n, typ == "tree")
				must(err)
				b, err := dump(back, typ == "tree")
				if err != nil {
					return err
				}
				return eqs("decoded node", b, a)
			}},
			{Name: "foreign", Desc: "every kind of link in every place: written if it is a git id, refused otherwise", Run: func(x *X) error {
				lcs := linkCases()
				lc := lcs[x.All(len(lcs))]
				place := x.All(8)
				impl := x.All(3)
				typ, v := withLink(place, lc.link)
				n, err := buildAs(typ, v, impl)
				if err != nil {
					x.Outcome("not buildable")
					return nil // a builder may refuse the link
				}
				x.State(lc.name, place, impl)
				out, err := encode(n)
				x.Input(out)
				x.Outcome("%s: %v", lc.name, err == nil)
				if lc.open {
					return nil
				}
				if lc.ok {
					if err != nil {
						return fmt.Errorf("a git link (place %d) cannot be encoded: %v", place, err)
					}
					return nil
				}
				if err == nil {
					return fmt.Errorf("a link that is not a git id (%s, place %d) is encoded as %q", lc.name, place, out)
				}
				return nil
			}},
		}})
}

// buildAs makes a node through the typed builder, the representation builder, or
// as a generic node.
func buildAs(typ string, v []kv, impl int) (ipld.Node, error) {
	switch impl {
	case 0, 1:
		nb := builderFor(typ, impl == 1)
		if err := assign(nb, v); err != nil {
			return nil, err
		}
		return nb.Build(), nil
	default:
		return generic(v), nil
	}
}

func idEverywhere(x *X, h []byte) error {
	hx := fmt.Sprintf("%x", h)
	p := person1()
	var o Object
	place := x.All(5)
	switch place {
	case 0:
		o = &Commit{Tree: hx, Parents: []string{hexB}, Author: p, Committer: p, Message: "m"}
	case 1:
		o = &Commit{Tree: hexA, Parents: []string{hexB, hx, hexB}, Author: p, Committer: p, Message: "m"}
	case 2:
		o = &Commit{Tree: hexA, Mergetags: []MergeTag{{hexB, "commit", "a", p, []string{" m"}}, {hx, "commit", "v", nil, []string{" m"}}}, Message: "m"}
	case 3:
		o = &Tag{hx, "commit", "v", p, "m"}
	case 4:
		o = Tree{{"100644", "a", shas[1]}, {"40000", "b", string(h)}, {"100644", "c", shas[1]}}
	}
	x.Outcome("place %d", place)
	n, err := roundTrip(x, o)
	if err != nil {
		return err
	}
	return expectNode(n, o)
}
