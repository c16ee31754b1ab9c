package main

// A reference classifier for arbitrary bytes: what must be rejected, what must be
// accepted (and as which object), and what the properties leave open.

import (
	"bytes"
	"strconv"
	"strings"
)

type verdict int

const (
	anyResult verdict = iota
	mustReject
	mustAccept
)

func (v verdict) String() string { return []string{"open", "reject", "accept"}[v] }

type judged struct {
	v   verdict
	obj Object
	why string
}

func reject(why string) judged { return judged{v: mustReject, why: why} }

// splitHeader separates "type size\0" from the body.
func splitHeader(in []byte) (typ, size string, body []byte, ok bool) {
	sp := bytes.IndexByte(in, ' ')
	if sp < 0 {
		return
	}
	nul := bytes.IndexByte(in[sp+1:], 0)
	if nul < 0 {
		return string(in[:sp]), "", nil, false
	}
	return string(in[:sp]), string(in[sp+1 : sp+1+nul]), in[sp+nul+2:], true
}

func judge(in []byte) judged {
	typ, size, body, ok := splitHeader(in)
	if !ok {
		return reject("incomplete header")
	}
	switch typ {
	case "commit", "tag", "tree", "blob":
	default:
		return reject("unknown type")
	}
	if size != strconv.Itoa(len(body)) {
		return reject("wrong size")
	}
	switch typ {
	case "blob":
		return judged{mustAccept, Blob(body), "blob"}
	case "tree":
		return judgeTree(body)
	case "tag":
		return judgeTag(body)
	default:
		return judgeCommit(body)
	}
}

func judgeTree(b []byte) judged {
	t := Tree{}
	seen := map[string]bool{}
	for len(b) > 0 {
		sp := bytes.IndexByte(b, ' ')
		if sp < 0 {
			return reject("tree entry cut in its mode")
		}
		nul := bytes.IndexByte(b[sp+1:], 0)
		if nul < 0 {
			return reject("tree entry cut in its name")
		}
		rest := b[sp+1+nul+1:]
		if len(rest) < 20 {
			return reject("tree entry cut in its hash")
		}
		e := Entry{string(b[:sp]), string(b[sp+1 : sp+1+nul]), string(rest[:20])}
		if seen[e.Name] {
			return reject("name repeated in a tree")
		}
		seen[e.Name] = true
		t = append(t, e)
		b = rest[20:]
	}
	return judged{mustAccept, t, "tree"}
}

func isHex40(s string) bool {
	if len(s) != 40 {
		return false
	}
	for _, c := range []byte(s) {
		if !('0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F') {
			return false
		}
	}
	return true
}

// upper says that a reference is not in the form git writes: it is open whether
// it is accepted.
func upper(h string) bool { return h != strings.ToLower(h) }

// readPerson splits an identity line the only way it can be split, if there is
// exactly one; bad means that it has no email at all.
func readPerson(s string) (p *Person, bad bool) {
	lt := strings.IndexByte(s, '<')
	if lt < 0 || strings.IndexByte(s[lt:], '>') < 0 {
		return nil, true
	}
	i := strings.Index(s, " <")
	if i < 0 {
		return nil, false
	}
	p = &Person{Name: s[:i]}
	s2 := s[i+2:]
	rest := ""
	if j := strings.Index(s2, "> "); j >= 0 {
		p.Email, rest = s2[:j], s2[j+2:]
		if rest == "" {
			return nil, false
		}
	} else if strings.HasSuffix(s2, ">") {
		p.Email = s2[:len(s2)-1]
	} else {
		return nil, false
	}
	if rest != "" {
		var more bool
		p.Date, p.TZ, more = strings.Cut(rest, " ")
		if more && p.TZ == "" {
			return nil, false
		}
	}
	if !personOK(p) || p.Line() != s {
		return nil, false
	}
	return p, false
}

// bodyLines splits into lines; the last may lack its newline.
func bodyLines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
}

func judgeTag(b []byte) judged {
	t := &Tag{}
	open := false
	rest := string(b)
	for len(rest) > 0 {
		line, tail, _ := strings.Cut(rest, "\n")
		rest = tail
		if line == "" {
			t.Message = rest
			break
		}
		k, v, has := strings.Cut(line, " ")
		if !has {
			open = true
			continue
		}
		switch k {
		case "object":
			if !isHex40(v) {
				return reject("tag with a malformed object id")
			}
			t.Object = v
			open = open || upper(v)
		case "type":
			t.Type = v
		case "tag":
			t.Tag = v
		case "tagger":
			p, bad := readPerson(v)
			if bad {
				return reject("tagger without email")
			}
			open = open || p == nil || *p == (Person{})
			t.Tagger = p
		default:
			open = true
		}
	}
	if t.Object == "" {
		return reject("tag without object")
	}
	if open || !bytes.Equal(t.Body(), b) {
		return judged{v: anyResult}
	}
	return judged{mustAccept, t, "tag"}
}

func judgeCommit(b []byte) judged {
	c := &Commit{}
	open := false
	rest := string(b)
	next := func() (string, bool) {
		if len(rest) == 0 {
			return "", false
		}
		line, tail, _ := strings.Cut(rest, "\n")
		rest = tail
		return line, true
	}
	line, ok := next()
	for ok {
		var nextLine string
		var have bool
		switch {
		case line == "":
			c.Message = rest
			rest = ""
		case strings.HasPrefix(line, "tree "):
			if !isHex40(line[5:]) {
				return reject("malformed tree id")
			}
			c.Tree = line[5:]
			open = open || upper(c.Tree)
		case strings.HasPrefix(line, "parent "):
			if !isHex40(line[7:]) {
				return reject("malformed parent id")
			}
			c.Parents = append(c.Parents, line[7:])
			open = open || upper(line[7:])
		case strings.HasPrefix(line, "author "):
			p, bad := readPerson(line[7:])
			if bad {
				return reject("author without email")
			}
			open = open || p == nil
			c.Author = p
		case strings.HasPrefix(line, "committer "):
			p, bad := readPerson(line[10:])
			if bad {
				return reject("committer without email")
			}
			open = open || p == nil
			c.Committer = p
		case strings.HasPrefix(line, "encoding "):
			e := line[9:]
			c.Encoding = &e
		case strings.HasPrefix(line, "mergetag object "):
			if !isHex40(line[16:]) {
				return reject("malformed mergetag object id")
			}
			m := MergeTag{Object: line[16:]}
			msg := false
			open = open || upper(m.Object)
			for {
				nextLine, have = next()
				if !have || !strings.HasPrefix(nextLine, " ") {
					break
				}
				switch {
				case msg:
					m.Msg = append(m.Msg, nextLine)
				case nextLine == " ":
					msg = true
				case strings.HasPrefix(nextLine, " type "):
					m.Type = nextLine[6:]
				case strings.HasPrefix(nextLine, " tag "):
					m.Tag = nextLine[5:]
				case strings.HasPrefix(nextLine, " tagger "):
					p, bad := readPerson(nextLine[8:])
					if bad {
						return reject("mergetag's tagger without email")
					}
					open = open || p == nil || *p == (Person{})
					m.Tagger = p
				default:
					open = true
				}
			}
			open = open || !msg || !have
			c.Mergetags = append(c.Mergetags, m)
			if have {
				line, ok = nextLine, true
				continue
			}
		case line == "gpgsig -----BEGIN PGP SIGNATURE-----":
			s := &Sig{}
			s.First, have = next()
			if !have {
				return reject("unterminated signature")
			}
			if !strings.HasPrefix(s.First, " ") {
				return reject("unterminated signature")
			}
			if s.First == " -----END PGP SIGNATURE-----" {
				return judged{v: anyResult}
			}
			for {
				nextLine, have = next()
				if !have || !strings.HasPrefix(nextLine, " ") {
					return reject("unterminated signature")
				}
				if nextLine == " -----END PGP SIGNATURE-----" {
					break
				}
				s.Lines = append(s.Lines, nextLine)
			}
			c.Sig = s
		default:
			c.Other = append(c.Other, line)
		}
		line, ok = next()
	}
	if open {
		return judged{v: anyResult}
	}
	if c.Tree == "" {
		return reject("commit without tree")
	}
	if !bytes.Equal(c.Body(), b) {
		return judged{v: anyResult}
	}
	return judged{mustAccept, c, "commit"}
}
