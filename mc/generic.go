package main

import (
	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/schema"
)

// plain turns any node into plain Go values, keeping the order of maps and
// leaving out absent fields.
func plain(n ipld.Node) any {
	switch n.Kind() {
	case ipld.Kind_String:
		s, err := n.AsString()
		must(err)
		return s
	case ipld.Kind_Bytes:
		b, err := n.AsBytes()
		must(err)
		return b
	case ipld.Kind_Link:
		l, err := n.AsLink()
		must(err)
		return l
	case ipld.Kind_List:
		out := []any{}
		for it := n.ListIterator(); !it.Done(); {
			_, v, err := it.Next()
			must(err)
			out = append(out, plain(v))
		}
		return out
	case ipld.Kind_Map:
		out := []kv{}
		for it := n.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			must(err)
			if v.IsAbsent() {
				continue
			}
			ks, err := k.AsString()
			must(err)
			out = append(out, kv{ks, plain(v)})
		}
		return out
	}
	return nil
}

func genericOf(n ipld.Node) ipld.Node { return generic(plain(n)) }

// permuted puts the keys of every map in another order: the k-th rotation,
// reversed if rev.
//
// Turning by one and reversing leaves a map of two fields as it was.
func permuted(v any, k int, rev bool, deep bool) any {
	switch v := v.(type) {
	case []kv:
		n := len(v)
		out := make([]kv, n)
		for i := range v {
			j := (i + k) % n
			if rev {
				j = n - 1 - j
			}
			e := v[i]
			if deep {
				e.v = permuted(e.v, k, rev, deep)
			}
			out[j] = e
		}
		return out
	case []any:
		if !deep {
			return v
		}
		out := make([]any, len(v))
		for i := range v {
			out[i] = permuted(v[i], k, rev, deep)
		}
		return out
	}
	return v
}

type interfaceNode = ipld.Node

// asImpl turns a typed node into another implementation of the same content: 0
// itself, 1 its representation, 2 a generic node, 3 a generic node with its
// fields in another order.
func asImpl(n ipld.Node, impl int) ipld.Node {
	switch impl {
	case 1:
		if t, ok := n.(schema.TypedNode); ok {
			return t.Representation()
		}
		return n
	case 2:
		return genericOf(n)
	case 3:
		typ := ""
		if n.Prototype() == git.Type.Tree || n.Prototype() == git.Type.Tree__Repr {
			typ = "tree"
		}
		return generic(otherOrder(plain(n), typ))
	}
	return n
}
