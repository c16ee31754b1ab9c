package main

import (
	"bytes"
	"crypto/sha1"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"sync"

	git "github.com/ipfs/go-ipld-git"
)

// Objects that git itself has written (tools/gitobjects.py), with git's own reading of
// them. They bind the reference model to git: what the model says about each of them
// is compared with what git says, and then the code's behaviour with the model.

//go:embed git_objects.json
var gitObjectsJSON []byte

type gitObject struct {
	ID, Type, Body string
	Git            []string
}

var gitObjects = sync.OnceValue(func() map[string][]gitObject {
	var all []gitObject
	must(json.Unmarshal(gitObjectsJSON, &all))
	out := map[string][]gitObject{}
	for _, o := range all {
		out[o.Type] = append(out[o.Type], o)
	}
	return out
})

func unhex(s string) string {
	b, err := hex.DecodeString(s)
	must(err)
	return string(b)
}

// modelOf gives the model's object, having made sure that the model reads, names and
// writes it as git does.
func modelOf(g gitObject) Object {
	in := wire(g.Type, []byte(unhex(g.Body)))
	wrong := func(format string, a ...any) {
		must(fmt.Errorf("the reference model is wrong about git's %s %s: %s", g.Type, g.ID, fmt.Sprintf(format, a...)))
	}
	if id := sha1.Sum(in); hex.EncodeToString(id[:]) != g.ID {
		wrong("its name")
	}
	j := judge(in)
	if j.v != mustAccept {
		wrong("verdict %v (%s)", j.v, j.why)
	}
	if !bytes.Equal(Wire(j.obj), in) {
		wrong("it would write %q", Wire(j.obj))
	}
	var v []string
	for _, s := range g.Git {
		v = append(v, unhex(s))
	}
	same := func(what, model, gits string) {
		if model != gits {
			wrong("%s: %q, git says %q", what, model, gits)
		}
	}
	ident := func(what string, p *Person, name, email, date string) {
		if p == nil {
			same(what, "", name+email+date)
			return
		}
		same(what+" name", p.Name, name)
		same(what+" email", p.Email, email)
		if p.Date != "" && p.TZ != "" {
			same(what+" date", p.Date+" "+p.TZ, date)
		}
	}
	switch o := j.obj.(type) {
	case *Commit:
		same("tree", o.Tree, v[0])
		same("parents", strings.Join(o.Parents, " "), v[1])
		ident("author", o.Author, v[2], v[3], v[4])
		ident("committer", o.Committer, v[5], v[6], v[7])
		e := ""
		if o.Encoding != nil {
			e = *o.Encoding
		}
		same("encoding", e, v[8])
		same("message", o.Message, v[9])
	case *Tag:
		same("object", o.Object, v[0])
		same("type", o.Type, v[1])
		same("tag", o.Tag, v[2])
		ident("tagger", o.Tagger, v[3], strings.Trim(v[4], "<>"), v[5])
		same("message", strings.TrimLeft(o.Message, "\n"), v[6]) // git leaves out leading blank lines
	case Tree:
		if len(o) != len(v) {
			wrong("%d entries, git says %d", len(o), len(v))
		}
		for i, e := range o {
			meta, name, _ := strings.Cut(v[i], "\t")
			f := strings.Fields(meta)
			same("name", e.Name, name)
			same("mode", fmt.Sprintf("%06s", e.Mode), f[0])
			same("hash", hex.EncodeToString([]byte(e.Sha)), f[2])
		}
	}
	return j.obj
}

// gitScenario runs check on every object of one type that git wrote.
func gitScenario(typ string, check func(x *X, o Object) error) *Scenario {
	return &Scenario{Name: "git", Desc: "objects written by git itself, on which the model has been compared with git's own reading", Run: func(x *X) error {
		g := gitObjects()[typ]
		return check(x, modelOf(g[x.All(len(g))]))
	}}
}

// gitIDs decodes, encodes and names each object as git does.
func gitRoundTrip(x *X, o Object) error {
	_, err := roundTrip(x, o)
	return err
}

func gitNode(x *X, o Object) error {
	in := Wire(o)
	x.Input(in)
	n, err := git.ParseObject(bytes.NewReader(in))
	if err != nil {
		return fmt.Errorf("a %s that git wrote is rejected: %v", o.Typ(), err)
	}
	if err := expectNode(n, o); err != nil {
		return err
	}
	switch o := o.(type) {
	case *Commit:
		return commitAccessors(n, o)
	case *Tag:
		return tagAccessors(n, o)
	}
	return nil
}
