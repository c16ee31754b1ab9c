package main

import (
	"bytes"
	"fmt"
	"strings"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
)

// commitCheck is what a property asks of one canonical commit.
type commitCheck func(x *X, c *Commit) error

func commitScenarios(check commitCheck) []*Scenario {
	run := func(f func(x *X) *Commit) func(x *X) error {
		return func(x *X) error {
			c := f(x)
			if c == nil {
				x.Outcome("outside the canonical form")
				return nil
			}
			x.Outcome("parents=%s mergetags=%d sig=%v other=%d", few(len(c.Parents)), min(len(c.Mergetags), 4), c.Sig != nil, min(len(c.Other), 3))
			return check(x, c)
		}
	}
	rich := shape{2, 1, 1, true, true, true, true}
	return []*Scenario{
		{Name: "shapes", Desc: "every combination of present and absent parts, each value varied alone", Bound: 1, Thorough: 1, Run: run(func(x *X) *Commit {
			s := shape{author: x.All(2) == 0, committer: x.All(2) == 0, enc: x.All(2) == 1, sign: x.All(2) == 1}
			s.parents = x.AllInt(pick([]int{1, 0, 2}, []int{1, 0, 2, 3, 5}))
			s.mergetags = x.AllInt(pick([]int{0, 1, 2}, []int{0, 1, 2, 3}))
			s.other = x.AllInt(pick([]int{0, 2}, []int{0, 1, 2, 3}))
			return s.fill(x)
		})},
		{Name: "values", Desc: "a commit with one of everything, all values varied together up to the bound", Bound: 2, Thorough: 2, Run: run(func(x *X) *Commit {
			return rich.fill(x)
		})},
		{Name: "values3", Desc: "a small commit, up to three values varied together", Only: "thorough", Thorough: 3, Run: run(func(x *X) *Commit {
			return shape{parents: 0, mergetags: 0, other: 1, sign: x.All(2) == 1, author: true}.fill(x)
		})},
		{Name: "interactions", Desc: interactingDesc, Bound: 4, Thorough: 8, Run: run(interactingCommit)},
		{Name: "parents", Desc: "numbers of parents, distinct, repeated and all the same", Run: run(func(x *X) *Commit {
			n := x.AllInt(pick(parentCounts, append(parentCounts, 1000, 1023, 1024, 1025, 4096)))
			if k := x.All(2); k == 1 {
				n = x.All(pick(40, 140))
			}
			c := shape{author: true, committer: true, sign: x.All(2) == 1}.fill(x)
			mode := x.All(4)
			for i := 0; i < n; i++ {
				switch mode {
				case 0:
					c.Parents = append(c.Parents, hexN(i))
				case 1:
					c.Parents = append(c.Parents, hexA)
				case 2:
					c.Parents = append(c.Parents, hexN(i/2))
				default:
					c.Parents = append(c.Parents, hexN(n-i))
				}
			}
			if x.All(2) == 1 && n > 0 {
				c.Tree = c.Parents[0]
			}
			return c
		})},
		{Name: "mergetags", Desc: "sequences of mergetags, each with or without tagger and message, before every kind of next line", Run: run(func(x *X) *Commit {
			c := shape{parents: 2, author: true, committer: true, enc: x.All(2) == 1}.fill(x)
			n := x.All(pick(4, 5))
			for i := 0; i < n; i++ {
				k := x.All(6)
				m := MergeTag{Object: hexN(i + 50), Type: "commit", Tag: fmt.Sprint("t", i), Msg: [][]string{{fmt.Sprint(" message ", i)}, {}, {" a", " ", " b", " "}}[k%3]}
				if k < 3 {
					m.Tagger = &Person{fmt.Sprint("T", i), "t@x", fmt.Sprint(1000 + i), "+0100"}
				}
				c.Mergetags = append(c.Mergetags, m)
			}
			if x.All(2) == 1 {
				c.Sig = &Sig{" ", []string{" abc"}}
			}
			switch x.All(4) {
			case 1:
				c.Other = []string{"HG:extra x"}
			case 2:
				c.Other = []string{"mergetag x", " y"}
			case 3:
				c.Other = []string{"x", "y", "z"}
			}
			c.Message = []string{"m\n", "", "\n\n x"}[x.All(3)]
			return c
		})},
		{Name: "many", Desc: "large numbers of mergetags, other headers, message and signature lines", Run: run(func(x *X) *Commit {
			c := shape{parents: 2, author: true, committer: true}.fill(x)
			n := x.AllInt(around([]int{5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4100}, 5000))
			switch x.All(5) {
			case 0:
				for i := 0; i < n; i++ {
					c.Mergetags = append(c.Mergetags, MergeTag{hexN(i), "commit", fmt.Sprint("t", i), &Person{"T", "t@x", fmt.Sprint(i + 1), "+0100"}, []string{fmt.Sprint(" m", i)}})
				}
			case 1:
				c.Other = lines("header value ", n)
			case 2:
				c.Sig = &Sig{" ", lines(" sig", n)}
			case 3:
				c.Mergetags = []MergeTag{{hexA, "commit", "t", nil, lines(" m", n)}, {hexB, "tag", "u", nil, lines("  m", n)}}
			case 4:
				c.Message = rep("line\n", n)
			}
			if x.All(2) == 1 {
				c.Other = append(c.Other, "last header")
			}
			return c
		})},
		{Name: "lengths", Desc: "every text field at every length of the length alphabet", Bound: 0, Thorough: 1, Run: run(func(x *X) *Commit {
			ls := lens
			if thorough() {
				ls = append(append([]int{}, lens...), 1<<18, 1<<20, 1<<20+1, 1<<22)
			}
			n := x.AllInt(ls)
			unit := x.AllStr([]string{"x", "y "})
			s := rep(unit, n)[:n]
			return setField(x, rich.fill(&X{}), s, x.All(commitFields))
		})},
		{Name: "boundaries", Desc: "one field grown byte by byte so that every later byte meets every read-buffer boundary", Run: run(func(x *X) *Commit {
			base := x.AllInt(pick([]int{3100}, []int{3100, 7196, 15388, 64540}))
			n := base + x.All(1100)
			return setField(x, rich.fill(&X{}), rep("p", n), x.AllInt([]int{0, 4, 5, 9, 11, 12, 13}))
		})},
		{Name: "bytes", Desc: "every byte value at the start, in the middle and at the end of every text field", Run: run(func(x *X) *Commit {
			f := x.All(commitFields)
			s, _ := byteAt(x, "ab")
			return setField(x, rich.fill(&X{}), s, f)
		})},
		{Name: "dictionary", Desc: "every constant of the code, alone and inside other text, in every text field", Run: run(func(x *X) *Commit {
			if x.All(2) == 1 {
				return setField(x, rich.fill(&X{}), literalPair(x), 13)
			}
			return setField(x, rich.fill(&X{}), literal(x), x.All(commitFields))
		})},
		{Name: "totals", Desc: "commits whose body or whole form is a multiple of a buffer size, or one byte off", Run: run(func(x *X) *Commit {
			f := x.AllInt([]int{0, 9, 11, 12, 13})
			if o := padded(x, func(s string) Object { return setField(x, rich.fill(&X{}), s, f) }); o != nil {
				return o.(*Commit)
			}
			return nil
		})},
		{Name: "documents", Desc: "every message of up to 4 (thorough 5) lines over meaningful lines, with and without a newline at the end; mergetag messages, signatures and other headers of up to 2 such lines", Run: run(func(x *X) *Commit {
			c := rich.fill(&X{})
			k := x.All(4)
			if k == 0 {
				c.Message = document(x, pick(4, 5))
				return c
			}
			var ls []string
			for i, n := 0, x.All(3); i < n; i++ {
				ls = append(ls, " "+x.AllStr(docLines))
			}
			switch k {
			case 1:
				c.Mergetags[0].Msg = ls
			case 2:
				for _, l := range ls {
					if l == " -----END PGP SIGNATURE-----" {
						return nil
					}
				}
				c.Sig.Lines = ls
			case 3:
				c.Other = append([]string{"gpgsig " + x.AllStr([]string{"-----BEGIN SSH SIGNATURE-----", "x"})}, ls...)
			}
			return c
		})},
		{Name: "pairs", Desc: "every pair of structural bytes in every text field", Run: run(func(x *X) *Commit {
			al := []string{" ", "<", ">", "\r", "\t", "\x00", "-", "a", "%", "\"", "\\", "\xff"}
			s := word(x, al, pick(3, 4))
			return setField(x, rich.fill(&X{}), s, x.All(commitFields))
		})},
	}
}

const commitFields = 15

// otherOK says whether a line is none of the headers that have a field of their own.
func otherOK(s string) bool {
	for _, p := range []string{"tree ", "parent ", "author ", "committer ", "encoding ", "mergetag object "} {
		if strings.HasPrefix(s, p) {
			return false
		}
	}
	return s != "" && s != "gpgsig -----BEGIN PGP SIGNATURE-----"
}

// setField puts a string in one of the text fields of a commit, or returns nil if
// the field cannot hold it.
func setField(x *X, c *Commit, s string, f int) *Commit {
	if bytes.IndexByte([]byte(s), '\n') >= 0 && f != 13 {
		return nil
	}
	ok := func(p *Person) bool { return personOK(p) }
	a, m, t := *c.Author, *c.Committer, *c.Mergetags[0].Tagger
	switch f {
	case 0:
		a.Name = s
	case 1:
		a.Email = s
	case 2:
		a.Date = s
	case 3:
		a.TZ = s
	case 4:
		m.Name = s
	case 5:
		c.Encoding = &s
	case 6:
		c.Mergetags[0].Type = s
	case 7:
		c.Mergetags[0].Tag = s
	case 8:
		t.Name = s
	case 9:
		c.Mergetags[0].Msg = []string{" " + s, " z"}
	case 10:
		c.Sig.First = " Version: " + s
	case 11:
		c.Sig.Lines = []string{" " + s, " z"}
		if s == "-----END PGP SIGNATURE-----" {
			return nil
		}
	case 12:
		c.Other = []string{"h" + s, "z"}
	case 13:
		c.Message = s
	case 14:
		if !otherOK(s) {
			return nil
		}
		c.Other = []string{s, "z"}
	}
	if !ok(&a) || !ok(&m) || !ok(&t) {
		return nil
	}
	c.Author, c.Committer, c.Mergetags[0].Tagger = &a, &m, &t
	return c
}

func few(n int) string {
	switch {
	case n <= 3:
		return fmt.Sprint(n)
	case n < 10:
		return "4-9"
	default:
		return "10+"
	}
}

func init() {
	commitBounds := map[string]any{
		"shapes": "author, committer, encoding and signature each present or absent; 0-2 (thorough 0-5) parents; 0-2 (0-3) mergetags; 0-2 (0-3) other headers",
		"values": map[string]int{"names": len(names), "emails": len(emails), "dates": len(dates), "timezones": len(zones), "encodings": len(encodings), "messages": len(messages), "other headers": len(otherLines), "signature lines": len(sigLines), "mergetag messages": len(mtMsgs), "object ids": len(hexes), "tag names": len(tagNames), "tag types": len(tagTypes)},
		"counts": parentCounts, "lengths": lens, "boundaries": "1100 consecutive lengths before the 4096-byte buffer boundary (thorough: also 8192, 16384, 65536)",
	}
	register(&Property{ID: "C01", Bounds: commitBounds, Scenarios: append(commitScenarios(func(x *X, c *Commit) error {
		_, err := roundTrip(x, c)
		return err
	}), &Scenario{Name: "orders", Desc: "headers in other orders and forms than the canonical one, as git, JGit and others may write them", Run: func(x *X) error {
		const sig, mt = "gpgsig -----BEGIN PGP SIGNATURE-----\n \n abc\n -----END PGP SIGNATURE-----\n", "mergetag object " + hexB + "\n type commit\n tag v\n"
		const people = "author A <a@b> 1 +0000\ncommitter A <a@b> 1 +0000\n"
		in := wire("commit", []byte(x.AllStr([]string{
			"tree " + hexA + "\n" + people + "change-id kqrz\n" + sig + "\nm\n",
			"tree " + hexA + "\n" + people + "encoding x\n" + mt + " \n m\n" + sig + "change-id kqrz\n\nm\n", // the canonical order
			"tree " + hexA + "\n" + people + mt + " x y\n \n m\n\nm\n",
			"tree " + hexA + "\n" + people + mt + "\nm\n",
			"tree " + hexA + "\n" + people + "change-id kqrz\n" + mt + " \n m\n\nm\n",
			"tree " + hexA + "\n" + people + sig + "encoding x\n\nm\n",
			"tree " + strings.ToUpper(hexA) + "\n" + people + "\nm\n",
			"tree " + hexA + "\n" + people,
			"tree " + hexA + "\n" + people + mt + " tagger  <>\n \n m\n\nm\n",
		})))
		return sameOrKnown(x, in)
	}}, gitScenario("commit", gitRoundTrip))})
	register(&Property{ID: "C02", Bounds: commitBounds, Scenarios: append(commitScenarios(func(x *X, c *Commit) error {
		in := Wire(c)
		x.Input(in)
		n, err := git.ParseObject(bytes.NewReader(in))
		if err != nil {
			return fmt.Errorf("a well-formed commit is rejected: %v", err)
		}
		if err := expectNode(n, c); err != nil {
			return err
		}
		return commitAccessors(n, c)
	}), gitScenario("commit", gitNode))})
}

// sameOrKnown requires a byte-identical round trip, unless exactly this input with
// exactly this result is a recorded finding.
func sameOrKnown(x *X, in []byte) error {
	x.Input(in)
	n, err := git.ParseObject(bytes.NewReader(in))
	if err != nil {
		return fmt.Errorf("a well-formed object is rejected: %v", err)
	}
	out, err := encode(n)
	if err != nil {
		return fmt.Errorf("a decoded object cannot be encoded: %v", err)
	}
	if bytes.Equal(in, out) {
		x.Outcome("identical")
		return nil
	}
	if isKnown(in, out) {
		x.Outcome("known finding")
		return nil
	}
	return fmt.Errorf("encoding a decoded object gives other bytes: %s", diffAt(out, in))
}

func eqs(what, got, want string) error {
	if got != want {
		return fmt.Errorf("%s is %s, expected %s", what, clip(got), clip(want))
	}
	return nil
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func personAccessors(what string, p git.PersonInfo, want *Person) error {
	if want == nil {
		want = &Person{}
	}
	return first(
		eqs(what+" name", p.FieldName().String(), want.Name), eqs(what+" email", p.FieldEmail().String(), want.Email),
		eqs(what+" date", p.FieldDate().String(), want.Date), eqs(what+" timezone", p.FieldTimezone().String(), want.TZ),
		eqs(what+" line", p.GitString(), want.Line()))
}

// commitAccessors compares what the typed Go accessors return.
func commitAccessors(n ipld.Node, c *Commit) error {
	g, ok := n.(git.Commit)
	if !ok {
		return fmt.Errorf("a decoded commit is a %T", n)
	}
	if err := first(eqs("tree", dmAnyLink(g.FieldTree().Link()), dmLinkHex(c.Tree)), eqs("message", g.FieldMessage().String(), c.Message)); err != nil {
		return err
	}
	if got := g.FieldParents().Length(); got != int64(len(c.Parents)) {
		return fmt.Errorf("%d parents, expected %d", got, len(c.Parents))
	}
	for i, p := range c.Parents {
		v := g.FieldParents().Lookup(int64(i))
		if v == nil {
			return fmt.Errorf("no parent %d", i)
		}
		if err := eqs("parent", dmAnyLink(v.Link()), dmLinkHex(p)); err != nil {
			return err
		}
	}
	for _, w := range []struct {
		what string
		m    git.MaybePersonInfo
		want *Person
	}{{"author", g.FieldAuthor(), c.Author}, {"committer", g.FieldCommitter(), c.Committer}} {
		if w.m.Exists() != (w.want != nil) {
			return fmt.Errorf("%s exists: %v", w.what, w.m.Exists())
		}
		if w.want != nil {
			if err := personAccessors(w.what, w.m.Must(), w.want); err != nil {
				return err
			}
		}
	}
	if m := g.FieldEncoding(); m.Exists() != (c.Encoding != nil) {
		return fmt.Errorf("encoding exists: %v", m.Exists())
	} else if m.Exists() {
		if err := eqs("encoding", m.Must().String(), *c.Encoding); err != nil {
			return err
		}
	}
	if m := g.FieldSignature(); m.Exists() != (c.Sig != nil) {
		return fmt.Errorf("signature exists: %v", m.Exists())
	} else if m.Exists() {
		s := c.Sig.First + "\n"
		for _, l := range c.Sig.Lines {
			s += l + "\n"
		}
		if err := eqs("signature", m.Must().String(), s); err != nil {
			return err
		}
	}
	if got := g.FieldMergetag().Length(); got != int64(len(c.Mergetags)) {
		return fmt.Errorf("%d mergetags, expected %d", got, len(c.Mergetags))
	}
	for i, m := range c.Mergetags {
		msg := ""
		for _, l := range m.Msg {
			msg += l + "\n"
		}
		v := g.FieldMergetag().Lookup(int64(i))
		if v == nil {
			return fmt.Errorf("no mergetag %d", i)
		}
		if err := tagAccessors(v, &Tag{m.Object, m.Type, m.Tag, m.Tagger, msg}); err != nil {
			return fmt.Errorf("mergetag %d: %w", i, err)
		}
	}
	if got := g.FieldOther().Length(); got != int64(len(c.Other)) {
		return fmt.Errorf("%d other headers, expected %d", got, len(c.Other))
	}
	for i, o := range c.Other {
		if err := eqs("other", g.FieldOther().Lookup(int64(i)).String(), o); err != nil {
			return err
		}
	}
	return nil
}

func tagAccessors(n ipld.Node, t *Tag) error {
	g, ok := n.(git.Tag)
	if !ok {
		return fmt.Errorf("a decoded tag is a %T", n)
	}
	if err := first(eqs("object", dmAnyLink(g.FieldObject().Link()), dmLinkHex(t.Object)), eqs("type", g.FieldType().String(), t.Type),
		eqs("tag", g.FieldTag().String(), t.Tag), eqs("message", g.FieldMessage().String(), t.Message)); err != nil {
		return err
	}
	if t.Tagger == nil {
		return first(eqs("tagger name", g.FieldTagger().FieldName().String(), ""), eqs("tagger email", g.FieldTagger().FieldEmail().String(), ""))
	}
	return personAccessors("tagger", g.FieldTagger(), t.Tagger)
}
