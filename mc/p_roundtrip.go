package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
)

// ber builds, encodes and decodes an object. how: 0 typed builder, 1
// representation builder, 2 generic node.
func ber(x *X, o Object, how int, order int, r route) error {
	in := Wire(o)
	x.Input(in)
	x.State(how, order, r, in)
	typ, v := refPlain(o)
	if m, ok := v.([]kv); ok && typ != "Tree" && order > 0 && len(m) > 0 {
		v = permuted(m, order%len(m), order%2 == 1, true)
	} else if ok && order > 0 {
		v = otherOrder(m, "tree")
	}
	var n ipld.Node
	if how == 2 {
		n = generic(v)
	} else {
		nb := schemaTypes[typ].proto(how == 1).NewBuilder()
		if err := put(nb, schemaTypes[typ], v, r); err != nil {
			return fmt.Errorf("a %s that git can hold cannot be built: %v", typ, err)
		}
		n = nb.Build()
	}
	x.Outcome("%s %d", typ, how)
	out, err := encode(n)
	if err != nil {
		return fmt.Errorf("a built %s cannot be encoded: %v", typ, err)
	}
	if !bytes.Equal(out, in) {
		return fmt.Errorf("a built %s is not encoded as git would write it: %s", typ, diffAt(out, in))
	}
	for repr := 0; repr < 2; repr++ {
		back, err := decodeTyped(out, o.Typ(), repr == 1)
		if err != nil {
			return fmt.Errorf("an encoded %s cannot be decoded: %v", typ, err)
		}
		if err := expectNode(back, o); err != nil {
			return err
		}
		if !ipld.DeepEqual(reprOf(back), reprOf(asImplTyped(n, typ))) {
			return fmt.Errorf("the decoded %s is not equal to the one that was built", typ)
		}
	}
	return nil
}

// asImplTyped copies a generic node into the typed form, for a comparison.
func asImplTyped(n ipld.Node, typ string) ipld.Node {
	nb := schemaTypes[typ].proto(false).NewBuilder()
	if err := nb.AssignNode(n); err != nil {
		return n
	}
	return nb.Build()
}

func init() {
	register(&Property{ID: "C22",
		Bounds: map[string]any{"objects": "all shapes of commits, values with up to 1 (thorough 2) deviations; tags; trees of up to 3 entries and of many sizes", "ways of building": "typed, representation and generic, fields in several orders, piece by piece or from other nodes"},
		Assume: []string{"a header value that contains a newline is not something git can hold; what Encode does with it is not part of the property"},
		Scenarios: []*Scenario{
			{Name: "shapes", Desc: "commits with every subset of the optional fields", Run: func(x *X) error {
				s := shape{x.All(3), x.All(3), x.All(3), x.All(2) == 1, x.All(2) == 1, x.All(2) == 1, x.All(2) == 1}
				return ber(x, s.fill(x), x.All(3), x.All(4), route{x.All(2), x.All(3), 0})
			}},
			{Name: "commits", Desc: "commits with values varied", Bound: 1, Thorough: 2, Run: func(x *X) error {
				s := shape{2, x.All(2), 2, x.All(2) == 1, x.All(2) == 1, x.All(2) == 1, x.All(2) == 1}
				return ber(x, s.fill(x), x.All(3), 0, route{})
			}},
			{Name: "tags", Desc: "tags with values varied", Bound: 2, Thorough: 3, Run: func(x *X) error {
				t := &Tag{x.Str(hexes), x.Str(tagTypes), x.Str(tagNames), nil, x.Str(messages)}
				if x.All(2) == 1 {
					t.Tagger = genPerson(x)
				}
				if t.Tagger != nil && *t.Tagger == (Person{}) {
					x.Outcome("an empty tagger")
					return nil // C03's known finding K6
				}
				return ber(x, t, x.All(3), 0, route{})
			}},
			{Name: "large", Desc: "objects of sizes around the constants of the code, and larger", Run: func(x *X) error {
				return ber(x, bigObject(x.All(5), x.AllInt(writeSizes)), x.All(3), x.All(2), route{x.All(2), x.All(3), 0})
			}},
			{Name: "mergetags", Desc: "mergetags whose parts are there or empty, one or two of them", Run: func(x *X) error {
				p := &Person{x.AllStr([]string{"n", ""}), x.AllStr([]string{"e", ""}), x.AllStr([]string{"1", "", "0"}), x.AllStr([]string{"+0000", "", "-0130"})}
				if *p == (Person{}) { // C03's known finding K6
					p = nil
				}
				mt := MergeTag{hexB, x.AllStr([]string{"commit", "tag", ""}), x.AllStr([]string{"v", ""}), p, [][]string{nil, {" "}, {" m", " ", " x"}}[x.All(3)]}
				c := &Commit{Tree: hexA, Parents: []string{hexB}, Author: person1(), Committer: person1(), Mergetags: []MergeTag{mt}, Message: "m\n"}
				switch x.All(3) {
				case 1:
					c.Mergetags = append(c.Mergetags, MergeTag{hexA, "commit", "w", person1(), []string{" t"}})
				case 2:
					c.Mergetags = append([]MergeTag{{hexA, "commit", "w", nil, []string{" t"}}}, mt)
					c.Other = []string{"x y"}
				}
				return ber(x, c, x.All(3), 0, route{})
			}},
			{Name: "interactions", Desc: interactingDesc, Bound: 3, Thorough: 5, Run: func(x *X) error {
				return ber(x, interacting(x), x.All(3), x.All(2), route{})
			}},
			{Name: "tag-orders", Desc: "tags built in several orders, by every route", Run: func(x *X) error {
				t := &Tag{hexA, "commit", "v1", nil, "m\n"}
				if x.All(2) == 1 {
					t.Tagger = person1()
				}
				return ber(x, t, x.All(3), x.All(10), anyRoute(x))
			}},
			{Name: "trees", Desc: "trees with values varied", Bound: 2, Thorough: 3, Run: func(x *X) error {
				t := Tree{}
				for i, n := 0, x.All(4); i < n; i++ {
					name := fmt.Sprint("n", i)
					if k := x.Choose(len(entryNames) + 1); k > 0 {
						name = entryNames[k-1]
					}
					for _, e := range t {
						if e.Name == name {
							name += "2"
						}
					}
					t = append(t, Entry{x.Str(modes), name, x.Str(shas)})
				}
				return ber(x, t, x.All(3), 0, route{})
			}},
			{Name: "tree-sizes", Desc: "trees of many sizes in three orders, by every way", Run: func(x *X) error {
				n := x.AllInt(around([]int{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 129}, 300))
				t := Tree{}
				mul := x.AllInt([]int{1, 7919, -1})
				for i := 0; i < n; i++ {
					t = append(t, Entry{"100644", fmt.Sprintf("n%03d", (i*mul%n+n)%n), raw(hexN(i))})
				}
				return ber(x, t, x.All(3), 0, anyRoute(x))
			}},
			{Name: "names", Desc: "every byte value in a name, an identity, a tag name, a message, an encoding and an extra header", Run: func(x *X) error {
				s, b := byteAt(x, "ab")
				p := person1()
				var o Object
				switch x.All(8) {
				case 0:
					if b == 0 {
						x.Outcome("outside the format")
						return nil
					}
					o = Tree{{"100644", s, shas[0]}}
				case 1:
					o = &Commit{Tree: hexA, Author: p, Committer: p, Message: s}
				case 2:
					p.Name = s
				case 3:
					p.Email = s
				case 4:
					o = &Tag{hexA, "commit", s, p, "m"}
				case 5:
					o = &Commit{Tree: hexA, Encoding: &s, Message: "m"}
				case 6:
					o = &Commit{Tree: hexA, Other: []string{s}, Message: "m"}
				case 7:
					o = &Tag{hexA, "commit", "v", p, s}
				}
				if o == nil {
					o = &Commit{Tree: hexA, Author: p, Message: "m"}
					if !personOK(p) {
						x.Outcome("outside the format")
						return nil
					}
				}
				if b == '\n' && o.Typ() != "tree" {
					if c, ok := o.(*Commit); !ok || c.Message == "m" {
						if t, ok := o.(*Tag); !ok || t.Message == "m" {
							x.Outcome("outside the format")
							return nil
						}
					}
				}
				return ber(x, o, x.All(3), 0, route{})
			}},
			{Name: "dictionary", Desc: "every constant of the code in every text field of a built commit, tag and tree", Run: func(x *X) error {
				s := literal(x)
				var o Object
				switch x.All(3) {
				case 0:
					if c := setField(x, shape{2, 1, 1, true, true, true, true}.fill(&X{}), s, x.All(commitFields)); c != nil {
						o = c
					}
				case 1:
					t := &Tag{hexA, "commit", "v", person1(), "m\n"}
					f := x.All(5)
					*[]*string{&t.Type, &t.Tag, &t.Message, &t.Tagger.Name, &t.Tagger.Email}[f] = s
					if (f == 2 || !strings.Contains(s, "\n")) && personOK(t.Tagger) {
						o = t
					}
				default:
					if !strings.Contains(s, "\x00") {
						o = Tree{{"100644", s, shas[0]}, {"40000", "zz", shas[1]}}
					}
				}
				if o == nil {
					x.Outcome("outside the format")
					return nil
				}
				return ber(x, o, x.All(3), 0, route{})
			}},
			{Name: "stored", Desc: "stored through a link system: the link is git's object id, and loading it gives the object", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				impl := x.All(4)
				n, err := git.ParseObjectFromBuffer(Wire(o))
				if err != nil {
					return err
				}
				x.Input(Wire(o))
				store := map[string][]byte{}
				ls := memSystem(store)
				lp := cidlink.LinkPrototype{Prefix: idOf(nil).Cid.Prefix()}
				ctx := linking.LinkContext{Ctx: context.Background()}
				l, err := ls.Store(ctx, lp, asImpl(n, impl))
				if err != nil {
					return fmt.Errorf("storing: %v", err)
				}
				if l.Binary() != idOf(Wire(o)).Binary() {
					return fmt.Errorf("stored as %v, but git's object id is %v", l, idOf(Wire(o)))
				}
				back, err := ls.Load(ctx, l, protoFor(o.Typ(), x.All(3)))
				if err != nil {
					return fmt.Errorf("loading: %v", err)
				}
				return expectNode(back, o)
			}},
		}})
}
