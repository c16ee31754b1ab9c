package main

import (
	"bytes"
	"fmt"
	"strings"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
)

var personPlaces = []string{"author", "committer", "tagger", "mergetag"}

// identityObject puts an identity line in one of the places that hold one.
func identityObject(place, line string) []byte {
	switch place {
	case "author":
		return wire("commit", []byte("tree "+hexA+"\nauthor "+line+"\ncommitter C <c@d> 2 +0100\n\nm\n"))
	case "committer":
		return wire("commit", []byte("tree "+hexA+"\nauthor A <c@d> 2 +0100\ncommitter "+line+"\n\nm\n"))
	case "tagger":
		return wire("tag", []byte("object "+hexA+"\ntype commit\ntag v\ntagger "+line+"\n\nm\n"))
	default:
		return wire("commit", []byte("tree "+hexA+"\nmergetag object "+hexB+"\n type commit\n tag v\n tagger "+line+"\n \n m\nx y\n\nm\n"))
	}
}

func personAt(n any, place string) (git.PersonInfo, error) {
	switch g := n.(type) {
	case git.Commit:
		switch place {
		case "author":
			if m := g.FieldAuthor(); m.Exists() {
				return m.Must(), nil
			}
		case "committer":
			if m := g.FieldCommitter(); m.Exists() {
				return m.Must(), nil
			}
		case "mergetag":
			if l := g.FieldMergetag(); l.Length() == 1 {
				return l.Lookup(0).FieldTagger(), nil
			}
		}
	case git.Tag:
		return g.FieldTagger(), nil
	}
	return nil, fmt.Errorf("no %s in the decoded %T", place, n)
}

// identity decides one identity line in one place.
func identity(x *X, place, line string) error {
	if strings.Contains(line, "\n") {
		x.Outcome("not a line")
		return nil
	}
	in := identityObject(place, line)
	x.Input(in)
	p, bad := readPerson(line)
	n, err := git.ParseObject(bytes.NewReader(in))
	switch {
	case bad:
		x.Outcome("no email, rejected")
		if err == nil {
			return fmt.Errorf("the %s line %q has no email and is accepted", place, line)
		}
		return nil
	case p == nil || (*p == (Person{}) && place != "author" && place != "committer"):
		x.Outcome("open, accepted: %v", err == nil)
		if err != nil {
			return nil
		}
		// Such a line may be written back in its plain form, as two recorded findings
		// tell, but not in any other.
		plain := line
		if strings.HasPrefix(plain, "<") {
			plain = " " + plain
		}
		for p, _ = readPerson(plain); p == nil && strings.HasSuffix(plain, " "); p, _ = readPerson(plain) {
			plain = plain[:len(plain)-1]
		}
		if p == nil || *p == (Person{}) {
			return nil
		}
		return sameIdentity(place, line, n, p, in, identityObject(place, plain))
	}
	x.Outcome("date=%v timezone=%v", p.Date != "", p.TZ != "")
	if err != nil {
		return fmt.Errorf("the %s line %q is rejected: %v", place, line, err)
	}
	return sameIdentity(place, line, n, p, in, in)
}

// sameIdentity requires the identity in n to be p, and n to be encoded as one of two.
func sameIdentity(place, line string, n datamodel.Node, p *Person, in, in2 []byte) error {
	g, err := personAt(n, place)
	if err != nil {
		return err
	}
	if err := personAccessors(place, g, p); err != nil {
		return err
	}
	got, err := dump(g, false)
	if err != nil {
		return err
	}
	if err := eqs(place, got, p.Value()); err != nil {
		return err
	}
	out, err := encode(n)
	if err != nil {
		return err
	}
	if !bytes.Equal(out, in) && !bytes.Equal(out, in2) {
		return fmt.Errorf("the %s line %q is written back differently: %s", place, line, diffAt(out, in))
	}
	return nil
}

func init() {
	place := func(x *X) string { return x.AllStr(personPlaces) }
	withP := func(x *X, pl string, p Person) error {
		if !personOK(&p) {
			x.Outcome("ambiguous parts")
			return nil
		}
		return identity(x, pl, p.Line())
	}
	register(&Property{ID: "C07",
		Bounds: map[string]any{"names": len(names), "emails": len(emails), "dates": len(dates), "timezones": len(zones), "lines": "all lines of up to 7 (thorough 8) characters over space, <, >, a, 1", "words": "all names and emails of up to 5 (6) characters over 5 structural ones", "places": personPlaces},
		Scenarios: []*Scenario{
			{Name: "products", Desc: "every name with every email, with and without date and timezone, in every place", Run: func(x *X) error {
				p := Person{Name: x.AllStr(names), Email: x.AllStr(emails)}
				pl := place(x)
				switch x.All(3) {
				case 0:
					p.Date, p.TZ = "1234567890", "-0730"
				case 1:
					p.Date = "5"
				}
				return withP(x, pl, p)
			}},
			{Name: "times", Desc: "every date with every timezone, in every place", Run: func(x *X) error {
				return withP(x, place(x), Person{x.AllStr(names[:6]), x.AllStr(emails[:4]), x.AllStr(dates), x.AllStr(zones)})
			}},
			{Name: "lines", Desc: "every short line over the structural characters", Run: func(x *X) error {
				pl := "author"
				if thorough() || x.All(2) == 1 {
					pl = place(x)
					return identity(x, pl, word(x, []string{" ", "<", ">", "a", "1"}, pick(5, 7)))
				}
				return identity(x, pl, word(x, []string{" ", "<", ">", "a", "1"}, 7))
			}},
			{Name: "lines-long", Only: "thorough", Desc: "longer lines", Run: func(x *X) error {
				return identity(x, "author", word(x, []string{" ", "<", ">", "a"}, 10))
			}},
			{Name: "forms", Desc: "lines as other tools than git commit write them", Run: func(x *X) error {
				line := x.AllStr([]string{"<a@b> 1 +0000", "A <a@b> ", "A <a@b> 1 ", // recorded findings
					"A <a@b> 1 +0000 ", " <a@b> 1 +0000", "A <a@b>  +0000", "A <a@b> 1 +0000 (CET)"})
				return sameOrKnown(x, identityObject("author", line))
			}},
			{Name: "name-words", Desc: "every name over the structural characters", Run: func(x *X) error {
				return withP(x, place(x), Person{word(x, []string{" ", "<", ">", "a", "\t"}, pick(5, 6)), x.AllStr([]string{"e", ""}), "1", "+0"})
			}},
			{Name: "email-words", Desc: "every email over the structural characters", Run: func(x *X) error {
				return withP(x, place(x), Person{x.AllStr([]string{"n", ""}), word(x, []string{" ", "<", ">", "a", "\t"}, pick(5, 6)), "1", "+0"})
			}},
			{Name: "both-words", Desc: "short names with short emails, with all forms of date and timezone", Run: func(x *X) error {
				al := []string{" ", "<", ">", "a"}
				p := Person{Name: word(x, al, 3), Email: word(x, al, pick(3, 4))}
				switch x.All(3) {
				case 0:
					p.Date, p.TZ = "1", "+0"
				case 1:
					p.Date = "1"
				}
				return withP(x, x.AllStr([]string{"author", "tagger"}), p)
			}},
			{Name: "time-words", Desc: "every date and timezone over the structural characters", Run: func(x *X) error {
				al := []string{" ", "0", "+", "-", "<", ">", "a", "\t"}
				return withP(x, x.AllStr([]string{"committer", "mergetag"}), Person{"N M", "e@f", word(x, al, pick(3, 4)), word(x, al, pick(2, 3))})
			}},
			{Name: "bytes", Desc: "every byte value at the start, in the middle and at the end of every part", Run: func(x *X) error {
				p := *person1()
				pl := place(x)
				f := x.All(4)
				s, _ := byteAt(x, "ab")
				*[]*string{&p.Name, &p.Email, &p.Date, &p.TZ}[f] = s
				return withP(x, pl, p)
			}},
			{Name: "dictionary", Desc: "every constant of the code, alone and inside other text, in every part", Run: func(x *X) error {
				p := *person1()
				pl := place(x)
				f := x.All(4)
				*[]*string{&p.Name, &p.Email, &p.Date, &p.TZ}[f] = literal(x)
				return withP(x, pl, p)
			}},
			{Name: "byte-pairs", Only: "thorough", Desc: "every pair of byte values as a name and as an email", Run: func(x *X) error {
				s := string([]byte{byte(x.All(256)), byte(x.All(256))})
				if x.All(2) == 0 {
					return withP(x, "author", Person{s, "e", "1", "+0"})
				}
				return withP(x, "tagger", Person{"n", s, "1", "+0"})
			}},
			{Name: "lengths", Desc: "every part at every length, of letters and of many short words", Run: func(x *X) error {
				p := *person1()
				pl := place(x)
				f := x.All(4)
				n := x.AllInt(lens)
				u := "x"
				if f < 2 {
					u = x.AllStr([]string{"x", "y ", " ", "ab  "})
				}
				*[]*string{&p.Name, &p.Email, &p.Date, &p.TZ}[f] = rep(u, n)[:n]
				return withP(x, pl, p)
			}},
			{Name: "word-counts", Desc: "every number of words in name and email up to a bound", Run: func(x *X) error {
				p := *person1()
				s := strings.TrimSuffix(rep("w ", x.All(pick(300, 3000))), " ")
				if x.All(2) == 0 {
					p.Name = s
				} else {
					p.Email = s
				}
				return withP(x, place(x), p)
			}},
		}})
}
