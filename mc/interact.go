package main

import "fmt"

// Interactions: objects in which several parts are unusual at the same time. Each
// part has a few typical forms; the first is the ordinary one, any other a deviation,
// so that all combinations of up to the bound of unusual parts are explored.

func alike(p *Person) *Person {
	if p == nil {
		return nil
	}
	q := *p
	return &q
}

func interactingCommit(x *X) *Commit {
	c := &Commit{Tree: hexA}
	switch n := x.Int([]int{1, 0, 2, 3, 17, -1, -2}); n {
	case -1:
		c.Parents = []string{hexA} // the tree's id
	case -2:
		c.Parents = []string{hexB, hexB, hexN(1), hexB}
	default:
		for i := 0; i < n; i++ {
			c.Parents = append(c.Parents, hexN(i))
		}
	}
	switch x.Choose(8) {
	case 0:
		c.Author = &Person{"A U Thor", "a@b.c", "1234567890", "+0100"}
	case 1:
	case 2:
		c.Author = &Person{"", "a@b.c", "1234567890", "+0100"}
	case 3:
		c.Author = &Person{"A U Thor", "", "0", "-0000"}
	case 4:
		c.Author = &Person{"A U Thor", "a@b.c", "", ""}
	case 5:
		c.Author = &Person{"  two  blanks ", "a b", "1", ""}
	case 6:
		c.Author = &Person{rep("n", 4096), "é\xff", "-1", "+051800"}
	case 7:
		c.Author = &Person{"A> B", "c>d", "1234567890", "+0100"}
	}
	switch x.Choose(6) {
	case 0:
		c.Committer = &Person{"C O Mitter", "c@d.e", "1234567891", "-0330"}
	case 1:
	case 2:
		c.Committer = alike(c.Author)
	case 3:
		c.Committer = &Person{"C O Mitter", "c@d.e", "", ""}
	case 4:
		c.Committer = &Person{"", "", "1234567891", "-0330"}
	case 5:
		c.Committer = &Person{"A U Thor", "a@b.c", "1234567890", "-0330"} // but for the timezone the author
	}
	if e := x.Str([]string{"-", "UTF-8", "", "ISO-8859-1", "author"}); e != "-" {
		c.Encoding = &e
	}
	mt := func() MergeTag {
		return MergeTag{hexB, "commit", "v1.0", &Person{"T Agger", "t@g.r", "1234567892", "+0200"}, []string{" merged"}}
	}
	switch x.Choose(10) {
	case 0:
	case 1:
		c.Mergetags = []MergeTag{mt()}
	case 2:
		m := mt()
		m.Tagger = nil
		c.Mergetags = []MergeTag{m}
	case 3:
		m := mt()
		m.Msg = nil
		c.Mergetags = []MergeTag{m}
	case 4:
		m := mt()
		m.Tagger, m.Msg = nil, nil
		c.Mergetags = []MergeTag{m, mt()}
	case 5:
		m := mt()
		m.Object, m.Tag = hexA, ""
		m.Tagger = alike(c.Author)
		if m.Tagger == nil {
			m.Tagger = person1()
		}
		m.Msg = []string{" subject", " ", " -----BEGIN PGP SIGNATURE-----", " ", " abc", " -----END PGP SIGNATURE-----"}
		c.Mergetags = []MergeTag{m}
	case 6:
		a, b := mt(), mt()
		a.Type, b.Tag = "tree", "v2"
		c.Mergetags = []MergeTag{a, b, mt()}
	case 7:
		c.Mergetags = []MergeTag{mt(), mt()}
	case 8:
		m := mt()
		m.Msg = []string{" ", " "}
		m.Tagger.Date, m.Tagger.TZ = "", ""
		c.Mergetags = []MergeTag{m}
	case 9:
		m := mt()
		m.Msg = []string{" " + rep("m", 5000), " type commit"}
		c.Mergetags = []MergeTag{m}
	}
	switch x.Choose(5) {
	case 0:
	case 1:
		c.Sig = &Sig{" ", []string{" iQEcBAAB", " =abcd"}}
	case 2:
		c.Sig = &Sig{" Version: GnuPG v1", []string{" ", " iQEcBAAB", " =abcd", " "}}
	case 3:
		c.Sig = &Sig{" ", lines(" s", 200)}
	case 4:
		c.Sig = &Sig{" Comment: é\xff", []string{"  x"}}
	}
	switch x.Choose(10) {
	case 0:
	case 1:
		c.Other = []string{"x"}
	case 2:
		c.Other = []string{"HG:extra rebase_source:abc", "HG:rename-source hg"}
	case 3:
		c.Other = []string{"gpgsig -----BEGIN SSH SIGNATURE-----", " abc", " -----END SSH SIGNATURE-----"}
	case 4:
		c.Other = []string{"gpgsig-sha256 -----BEGIN PGP SIGNATURE-----", " ", " abc", " -----END PGP SIGNATURE-----"}
	case 5:
		c.Other = []string{"a\r", "b ", "\tc"}
	case 6:
		c.Other = []string{"same", "same"}
	case 7:
		c.Other = lines("h", 40)
	case 8:
		c.Other = []string{"o" + rep("o", 4095), "é\xff\x00"}
	case 9:
		c.Other = []string{"tree", "parent", "author", "committer", "encoding", "mergetag"}
	}
	c.fixOther()
	c.Message = x.Str([]string{"subject\n\nbody\n", "", "no newline", "\n", "\n\nlate\n", "crlf\r\n", "nul\x00\n", "é\xff\n", rep("line\n", 1000), "tree " + hexA + "\n", "gpgsig -----BEGIN PGP SIGNATURE-----\n abc\n", " blank\n ", "ends\n\n\n"})
	return c
}

func interactingTag(x *X) *Tag {
	t := &Tag{Object: x.Str([]string{hexA, hexB, rep("0", 40)}), Type: x.Str([]string{"commit", "tree", "blob", "tag", "", "x y"}),
		Tag: x.Str([]string{"v1.0", "", "a b", "refs/tags/v1", rep("t", 5000), "é\xff", "v1.0\r"})}
	switch x.Choose(9) {
	case 0:
		t.Tagger = &Person{"T Agger", "t@g.r", "1234567890", "+0200"}
	case 1:
	case 2:
		t.Tagger = &Person{"", "t@g.r", "1234567890", "+0200"}
	case 3:
		t.Tagger = &Person{"T Agger", "", "0", "-0000"}
	case 4:
		t.Tagger = &Person{"T Agger", "t@g.r", "", ""}
	case 5:
		t.Tagger = &Person{" a  b ", "x y", "1", ""}
	case 6:
		t.Tagger = &Person{"", "", "1", "+0000"}
	case 7:
		t.Tagger = &Person{"A> B", "c>d", "1234567890", "+0100"}
	case 8:
		t.Tagger = &Person{rep("n", 4096), "é\xff", "-1", "+051800"}
	}
	t.Message = x.Str([]string{"release\n\nnotes\n", "", "no newline", "\n", "\n\nlate\n", "crlf\r\n", "nul\x00\n", "é\xff\n", rep("line\n", 1000), "object " + hexA + "\ntype tree\n", "m\n-----BEGIN PGP SIGNATURE-----\n\nabc\n-----END PGP SIGNATURE-----\n", "-----BEGIN SSH SIGNATURE-----\nabc\n-----END SSH SIGNATURE-----", " blank\n ", "ends\n\n\n"})
	return t
}

// interactingTree has entries whose modes, names and ids are unusual together, and
// in relation to one another.
func interactingTree(x *X) Tree {
	var t Tree
	n := x.Int([]int{3, 0, 1, 2, 4, 20})
	for i := 0; i < min(n, 4); i++ {
		e := Entry{x.Str([]string{"100644", "40000", "120000", "160000", "100755", "040000", "", "644"}), fmt.Sprintf("n%d", i), raw(hexN(i))}
		if i > 0 {
			switch x.Choose(7) {
			case 1:
				e.Name = t[i-1].Name + ".c"
			case 2:
				e.Name = t[i-1].Name + "/"
			case 3:
				e.Name = t[i-1].Name + " x"
			case 4:
				e.Name = string([]byte{byte('0' + i)})
			case 5:
				e.Name = "A" + t[i-1].Name
			case 6:
				e.Name = rep("é", 2100) + fmt.Sprint(i)
			}
			switch x.Choose(3) {
			case 1:
				e.Sha = t[i-1].Sha
			case 2:
				e.Sha = raw(rep("20", 20))
			}
		}
		t = append(t, e)
	}
	for i := 4; i < n; i++ {
		t = append(t, Entry{"100644", fmt.Sprintf("m%d", i), raw(hexN(i))})
	}
	return t
}

func interacting(x *X) Object {
	switch x.All(3) {
	case 0:
		return interactingCommit(x)
	case 1:
		return interactingTag(x)
	default:
		return interactingTree(x)
	}
}

const interactingDesc = "parts that are unusual in combination: all combinations of up to the bound of unusual forms of the parts of a commit, tag or tree"
