package main

import (
	"bytes"
	"fmt"

	git "github.com/ipfs/go-ipld-git"
)

func tagScenarios(check func(x *X, t *Tag) error) []*Scenario {
	run := func(f func(x *X) *Tag) func(x *X) error {
		return func(x *X) error {
			t := f(x)
			if t == nil {
				x.Outcome("outside the canonical form")
				return nil
			}
			x.Outcome("tagger=%v message=%v", t.Tagger != nil, t.Message != "")
			return check(x, t)
		}
	}
	def := func() *Tag {
		return &Tag{hexA, "commit", "v1.0", &Person{"T Agger", "t@g.r", "1234567890", "+0200"}, "release\n\nnotes\n"}
	}
	set := func(t *Tag, s string, f int) *Tag {
		if bytes.IndexByte([]byte(s), '\n') >= 0 && f != 6 {
			return nil
		}
		switch f {
		case 0:
			t.Type = s
		case 1:
			t.Tag = s
		case 2:
			t.Tagger.Name = s
		case 3:
			t.Tagger.Email = s
		case 4:
			t.Tagger.Date = s
		case 5:
			t.Tagger.TZ = s
		case 6:
			t.Message = s
		}
		if t.Tagger != nil && !personOK(t.Tagger) {
			return nil
		}
		return t
	}
	return []*Scenario{
		{Name: "values", Desc: "all values varied together up to the bound, with and without tagger", Bound: 2, Thorough: 3, Run: run(func(x *X) *Tag {
			t := &Tag{}
			if x.All(2) == 0 {
				t.Tagger = genPerson(x)
			}
			t.Object, t.Type, t.Tag, t.Message = x.Str(hexes), x.Str(tagTypes), x.Str(tagNames), x.Str(messages)
			return t
		})},
		{Name: "interactions", Desc: interactingDesc, Bound: 5, Thorough: 5, Run: run(interactingTag)},
		{Name: "lengths", Desc: "every text field at every length of the length alphabet", Run: run(func(x *X) *Tag {
			n := x.AllInt(pick(lens, append(append([]int{}, lens...), 1<<18, 1<<20, 1<<22)))
			unit := x.AllStr([]string{"x", "y "})
			return set(def(), rep(unit, n)[:n], x.All(7))
		})},
		{Name: "boundaries", Desc: "one field grown byte by byte so that every later byte meets every read-buffer boundary", Run: run(func(x *X) *Tag {
			base := x.AllInt(pick([]int{3700, 7796}, []int{3700, 7796, 15988, 65140}))
			return set(def(), rep("p", base+x.All(500)), x.All(7))
		})},
		{Name: "bytes", Desc: "every byte value at the start, in the middle and at the end of every text field", Run: run(func(x *X) *Tag {
			f := x.All(7)
			s, _ := byteAt(x, "ab")
			return set(def(), s, f)
		})},
		{Name: "words", Desc: "every word over the structural bytes in every text field", Run: run(func(x *X) *Tag {
			al := []string{" ", "<", ">", "\r", "\t", "\x00", "-", "a", "%", "\n", "\\", "\xff"}
			return set(def(), word(x, al, pick(3, 4)), x.All(7))
		})},
		{Name: "dictionary", Desc: "every constant of the code, alone and inside other text, in every text field", Run: run(func(x *X) *Tag {
			if x.All(2) == 1 {
				return set(def(), literalPair(x), 6)
			}
			return set(def(), literal(x), x.All(7))
		})},
		{Name: "totals", Desc: "tags whose body or whole form is a multiple of a buffer size, or one byte off", Run: run(func(x *X) *Tag {
			f := x.AllInt([]int{1, 2, 6})
			if o := padded(x, func(s string) Object { return set(def(), s, f) }); o != nil {
				return o.(*Tag)
			}
			return nil
		})},
		{Name: "documents", Desc: "every message of up to 4 (thorough 5) lines over meaningful lines, with and without a newline at the end", Run: run(func(x *X) *Tag {
			return set(def(), document(x, pick(4, 5)), 6)
		})},
		{Name: "minimal", Desc: "every combination of empty and non-empty fields", Run: run(func(x *X) *Tag {
			t := def()
			t.Type, t.Tag, t.Message = x.AllStr([]string{"commit", ""}), x.AllStr([]string{"v", ""}), x.AllStr([]string{"m", "", "\n", "m\n"})
			if x.All(2) == 1 {
				t.Tagger = nil
			} else {
				t.Tagger = &Person{x.AllStr([]string{"n", ""}), x.AllStr([]string{"e", ""}), x.AllStr([]string{"1", ""}), x.AllStr([]string{"+0", ""})}
				if *t.Tagger == (Person{}) {
					return nil
				}
			}
			return t
		})},
	}
}

func init() {
	bounds := map[string]any{"values": map[string]int{"object ids": len(hexes), "types": len(tagTypes), "tag names": len(tagNames), "names": len(names), "emails": len(emails), "dates": len(dates), "timezones": len(zones), "messages": len(messages)},
		"lengths": lens, "boundaries": "500 consecutive lengths around the 4096- and 8192-byte boundaries (thorough: also 16384, 65536)", "words": "12 structural bytes, length up to 3 (thorough 4)"}
	register(&Property{ID: "C03", Bounds: bounds, Scenarios: append(tagScenarios(func(x *X, t *Tag) error {
		_, err := roundTrip(x, t)
		return err
	}), &Scenario{Name: "unusual", Desc: "tags git itself can write that are not of the common form", Run: func(x *X) error {
		h := "object " + hexA + "\ntype commit\ntag v\ntagger T <t@x> 1 +0000\n"
		return sameOrKnown(x, wire("tag", []byte(x.AllStr([]string{h + "\n", h + "gpgsig-sha256 x\n\nm\n",
			"object " + hexA + "\ntype commit\ntag v\ntagger  <>\n\nm\n"}))))
	}}, gitScenario("tag", gitRoundTrip))})
	register(&Property{ID: "C04", Bounds: bounds, Scenarios: append(tagScenarios(func(x *X, t *Tag) error {
		in := Wire(t)
		x.Input(in)
		n, err := git.ParseObject(bytes.NewReader(in))
		if err != nil {
			return fmt.Errorf("a well-formed tag is rejected: %v", err)
		}
		return first(expectNode(n, t), tagAccessors(n, t))
	}), gitScenario("tag", gitNode))})
}
