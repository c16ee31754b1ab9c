package main

// The reference model: git objects as plain Go values, how git writes them, and
// the data-model value that a decoded one must have. It shares no code with the
// repository, and neither CIDs nor multihashes come from a library here.

import (
	"bytes"
	"encoding/hex"
	"sort"
	"strconv"
	"strings"
)

type Person struct{ Name, Email, Date, TZ string }

func (p Person) Line() string {
	s := p.Name + " <" + p.Email + ">"
	if p.Date != "" || p.TZ != "" {
		s += " " + p.Date
	}
	if p.TZ != "" {
		s += " " + p.TZ
	}
	return s
}

func (p Person) Value() string {
	return dmMap(map[string]string{"name": dmStr(p.Name), "email": dmStr(p.Email), "date": dmStr(p.Date), "timezone": dmStr(p.TZ)})
}

type Sig struct {
	First string // " ", " Version: ..." or " Comment: ..."
	Lines []string
}

type MergeTag struct {
	Object, Type, Tag string
	Tagger            *Person
	Msg               []string // each as it stands in the commit, with its leading space
}

type Commit struct {
	Tree              string
	Parents           []string
	Author, Committer *Person
	Encoding          *string
	Mergetags         []MergeTag
	Sig               *Sig
	Other             []string
	Message           string
}

type Tag struct {
	Object, Type, Tag string
	Tagger            *Person
	Message           string
}

type Entry struct {
	Mode, Name string
	Sha        string // 20 raw bytes
}

type Tree []Entry

type Blob []byte

// An Object is any of the four.
type Object interface {
	Typ() string
	Body() []byte
	Value() string
}

func (c *Commit) Typ() string { return "commit" }
func (t *Tag) Typ() string    { return "tag" }
func (t Tree) Typ() string    { return "tree" }
func (b Blob) Typ() string    { return "blob" }

// Wire is the serialized object, the bytes whose SHA-1 is its id.
func Wire(o Object) []byte {
	if f, ok := o.(*fixed); ok {
		return f.w
	}
	return wire(o.Typ(), o.Body())
}

// fixed is an object that is used again and again, with its forms kept.
type fixed struct {
	Object
	w, z []byte
	v    string
}

func (f *fixed) Value() string { return f.v }

func fix(os []Object) []Object {
	out := make([]Object, len(os))
	for i, o := range os {
		out[i] = &fixed{o, Wire(o), compress(Wire(o), 1), o.Value()}
	}
	return out
}

func wire(typ string, body []byte) []byte {
	out := make([]byte, 0, len(body)+16)
	out = append(out, typ...)
	out = append(out, ' ')
	out = strconv.AppendInt(out, int64(len(body)), 10)
	out = append(out, 0)
	return append(out, body...)
}

func (c *Commit) Body() []byte {
	var b bytes.Buffer
	w := func(parts ...string) {
		for _, p := range parts {
			b.WriteString(p)
		}
	}
	w("tree ", c.Tree, "\n")
	for _, p := range c.Parents {
		w("parent ", p, "\n")
	}
	if c.Author != nil {
		w("author ", c.Author.Line(), "\n")
	}
	if c.Committer != nil {
		w("committer ", c.Committer.Line(), "\n")
	}
	if c.Encoding != nil {
		w("encoding ", *c.Encoding, "\n")
	}
	for _, m := range c.Mergetags {
		w("mergetag object ", m.Object, "\n type ", m.Type, "\n tag ", m.Tag, "\n")
		if m.Tagger != nil {
			w(" tagger ", m.Tagger.Line(), "\n")
		}
		w(" \n")
		for _, l := range m.Msg {
			w(l, "\n")
		}
	}
	if c.Sig != nil {
		w("gpgsig -----BEGIN PGP SIGNATURE-----\n", c.Sig.First, "\n")
		for _, l := range c.Sig.Lines {
			w(l, "\n")
		}
		w(" -----END PGP SIGNATURE-----\n")
	}
	for _, l := range c.Other {
		w(l, "\n")
	}
	w("\n", c.Message)
	return b.Bytes()
}

func (c *Commit) Value() string {
	m := map[string]string{"tree": dmLinkHex(c.Tree), "message": dmStr(c.Message)}
	var l []string
	for _, p := range c.Parents {
		l = append(l, dmLinkHex(p))
	}
	m["parents"] = dmList(l)
	if c.Author != nil {
		m["author"] = c.Author.Value()
	}
	if c.Committer != nil {
		m["committer"] = c.Committer.Value()
	}
	if c.Encoding != nil {
		m["encoding"] = dmStr(*c.Encoding)
	}
	if c.Sig != nil {
		s := c.Sig.First + "\n"
		for _, l := range c.Sig.Lines {
			s += l + "\n"
		}
		m["signature"] = dmStr(s)
	}
	l = nil
	for _, t := range c.Mergetags {
		l = append(l, t.Value())
	}
	m["mergetag"] = dmList(l)
	l = nil
	for _, o := range c.Other {
		l = append(l, dmStr(o))
	}
	m["other"] = dmList(l)
	return dmMap(m)
}

func (t MergeTag) Value() string {
	var msg strings.Builder
	for _, l := range t.Msg {
		msg.WriteString(l + "\n")
	}
	return (&Tag{t.Object, t.Type, t.Tag, t.Tagger, msg.String()}).Value()
}

func (t *Tag) Body() []byte {
	s := "object " + t.Object + "\ntype " + t.Type + "\ntag " + t.Tag + "\n"
	if t.Tagger != nil {
		s += "tagger " + t.Tagger.Line() + "\n"
	}
	if t.Message != "" {
		s += "\n" + t.Message
	}
	return []byte(s)
}

func (t *Tag) Value() string {
	p := Person{}
	if t.Tagger != nil {
		p = *t.Tagger
	}
	return dmMap(map[string]string{"object": dmLinkHex(t.Object), "type": dmStr(t.Type), "tag": dmStr(t.Tag),
		"tagger": p.Value(), "message": dmStr(t.Message)})
}

func (t Tree) Body() []byte {
	var b bytes.Buffer
	for _, e := range t {
		b.WriteString(e.Mode + " " + e.Name + "\x00" + e.Sha)
	}
	return b.Bytes()
}

func (t Tree) Value() string {
	var b strings.Builder
	b.WriteString("{")
	for _, e := range t {
		b.WriteString(dmStr(e.Name) + ":" + dmMap(map[string]string{"mode": dmStr(e.Mode), "hash": dmLink(e.Sha)}) + ",")
	}
	b.WriteString("}")
	return b.String()
}

func (b Blob) Body() []byte { return b }

func (b Blob) Value() string { return dmBytes(wire("blob", b)) }

// Data-model values are compared as text. Struct-like maps are sorted by key,
// trees keep their order.

func dmStr(s string) string   { return strconv.Itoa(len(s)) + "'" + s }
func dmBytes(b []byte) string { return "b" + strconv.Itoa(len(b)) + "'" + string(b) }

// dmLink is the link to the git object with this hash: a version 1 CID (01), of
// git's own codec (78), by SHA-1 (11) of 20 bytes (14).
func dmLink(sha string) string { return "@" + hex.EncodeToString([]byte("\x01\x78\x11\x14"+sha)) }

func dmLinkHex(h string) string { return "@01781114" + strings.ToLower(h) }

func dmList(l []string) string { return "[" + strings.Join(l, ",") + "]" }

func dmMap(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString("{")
	for _, k := range ks {
		b.WriteString(dmStr(k) + ":" + m[k] + ",")
	}
	b.WriteString("}")
	return b.String()
}
