package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/schema"
)

// dump renders a node as the reference model renders values. It uses the node's
// own iterators only, and skips fields that are absent.
func dump(n ipld.Node, ordered bool) (string, error) {
	var b strings.Builder
	if err := dumpTo(&b, n, ordered); err != nil {
		return "", err
	}
	return b.String(), nil
}

func dumpTo(b *strings.Builder, n ipld.Node, ordered bool) error {
	if n == nil {
		return errors.New("nil node")
	}
	switch n.Kind() {
	case ipld.Kind_String:
		s, err := n.AsString()
		if err != nil {
			return err
		}
		b.WriteString(dmStr(s))
	case ipld.Kind_Bytes:
		v, err := n.AsBytes()
		if err != nil {
			return err
		}
		b.WriteString(dmBytes(v))
	case ipld.Kind_Link:
		l, err := n.AsLink()
		if err != nil {
			return err
		}
		b.WriteString(dmAnyLink(l))
	case ipld.Kind_List:
		b.WriteString("[")
		it := n.ListIterator()
		if it == nil {
			return errors.New("a list without an iterator")
		}
		for i := 0; !it.Done(); i++ {
			idx, v, err := it.Next()
			if err != nil {
				return err
			}
			if int(idx) != i {
				return fmt.Errorf("list iterator gives index %d for %d", idx, i)
			}
			if i > 0 {
				b.WriteString(",")
			}
			if err := dumpTo(b, v, false); err != nil {
				return err
			}
		}
		b.WriteString("]")
	case ipld.Kind_Map:
		it := n.MapIterator()
		if it == nil {
			return errors.New("a map without an iterator")
		}
		var ents []string
		for !it.Done() {
			k, v, err := it.Next()
			if err != nil {
				return err
			}
			if v.IsAbsent() {
				continue
			}
			ks, err := k.AsString()
			if err != nil {
				return err
			}
			var e strings.Builder
			e.WriteString(dmStr(ks) + ":")
			if err := dumpTo(&e, v, false); err != nil {
				return err
			}
			ents = append(ents, e.String()+",")
		}
		if !ordered {
			sort.Slice(ents, func(i, j int) bool { return afterLen(ents[i]) < afterLen(ents[j]) })
		}
		b.WriteString("{" + strings.Join(ents, "") + "}")
	case ipld.Kind_Null:
		b.WriteString("null")
	default:
		return fmt.Errorf("unexpected kind %v", n.Kind())
	}
	return nil
}

// afterLen drops the length from a rendered key, which is how the reference sorts.
func afterLen(s string) string { return s[strings.IndexByte(s, '\'')+1:] }

func dmAnyLink(l ipld.Link) string {
	if l == nil {
		return "@nil"
	}
	cl, ok := l.(cidlink.Link)
	if !ok {
		return "@?" + l.String()
	}
	return "@" + hex.EncodeToString([]byte(cl.Cid.KeyString()))
}

// expectNode compares a node, and its representation if it is typed, with a value.
func expectNode(n ipld.Node, o Object) error {
	isTree := o.Typ() == "tree"
	want := o.Value()
	got, err := dump(n, isTree)
	if err != nil {
		return fmt.Errorf("reading the node: %w", err)
	}
	if got != want {
		return fmt.Errorf("node is\n %s\nexpected\n %s", clip(got), clip(want))
	}
	if tn, ok := n.(schema.TypedNode); ok {
		got, err := dump(tn.Representation(), isTree)
		if err != nil {
			return fmt.Errorf("reading the representation: %w", err)
		}
		if got != want {
			return fmt.Errorf("representation is\n %s\nexpected\n %s", clip(got), clip(want))
		}
	}
	return nil
}

func clip(s string) string {
	if len(s) > 1500 {
		return fmt.Sprintf("%.1000q...(%d bytes)...%.300q", s, len(s), s[len(s)-300:])
	}
	return fmt.Sprintf("%q", s)
}

// diffAt describes where two byte strings part.
func diffAt(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := max(0, i-20)
	return fmt.Sprintf("lengths %d and %d, first difference at %d: got %.80q, want %.80q", len(got), len(want), i, got[min(lo, len(got)):], want[min(lo, len(want)):])
}

func encode(n ipld.Node) ([]byte, error) {
	var b bytes.Buffer
	err := git.Encode(n, &b)
	return b.Bytes(), err
}

// roundTrip is the central conformance step: the object must be accepted, and
// come back byte for byte.
func roundTrip(x *X, o Object) (ipld.Node, error) {
	in := Wire(o)
	x.Input(in)
	n, err := git.ParseObject(bytes.NewReader(in))
	if err != nil {
		return nil, fmt.Errorf("a well-formed %s is rejected: %v", o.Typ(), err)
	}
	out, err := encode(n)
	if err != nil {
		return nil, fmt.Errorf("a decoded %s cannot be encoded: %v", o.Typ(), err)
	}
	if !bytes.Equal(out, in) {
		return nil, fmt.Errorf("encoding a decoded %s gives other bytes: %s", o.Typ(), diffAt(out, in))
	}
	return n, nil
}

// decodeAny decodes with the registered codec function into a builder for the type.
func decodeTyped(b []byte, typ string, repr bool) (ipld.Node, error) {
	nb := builderFor(typ, repr)
	if err := git.Decode(nb, bytes.NewReader(b)); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

func builderFor(typ string, repr bool) ipld.NodeBuilder {
	switch typ {
	case "commit":
		if repr {
			return git.Type.Commit__Repr.NewBuilder()
		}
		return git.Type.Commit.NewBuilder()
	case "tag":
		if repr {
			return git.Type.Tag__Repr.NewBuilder()
		}
		return git.Type.Tag.NewBuilder()
	case "tree":
		if repr {
			return git.Type.Tree__Repr.NewBuilder()
		}
		return git.Type.Tree.NewBuilder()
	default:
		if repr {
			return git.Type.Blob__Repr.NewBuilder()
		}
		return git.Type.Blob.NewBuilder()
	}
}

func mustReader(b []byte) *bufio.Reader { return bufio.NewReader(bytes.NewReader(b)) }

var _ io.Reader = (*bufio.Reader)(nil)
