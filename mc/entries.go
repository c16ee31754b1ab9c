package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"fmt"
	"io"

	blocks "github.com/ipfs/go-block-format"
	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/multicodec"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

// An entry point turns the bytes of one object into a node.
type entryPoint struct {
	name string
	run  func(in []byte, typ string) (ipld.Node, error)
}

// typeWord is the type that an input claims, or "".
func typeWord(in []byte) string {
	i := bytes.IndexByte(in, ' ')
	if i < 0 {
		return ""
	}
	switch t := string(in[:i]); t {
	case "commit", "tag", "tree", "blob":
		return t
	}
	return ""
}

// protoFor is the prototype that a caller would choose: 0 typed, 1 its
// representation, 2 anything.
func protoFor(typ string, impl int) ipld.NodePrototype {
	if impl == 2 {
		return basicnode.Prototype.Any
	}
	switch typ {
	case "commit":
		if impl == 1 {
			return git.Type.Commit__Repr
		}
		return git.Type.Commit
	case "tag":
		if impl == 1 {
			return git.Type.Tag__Repr
		}
		return git.Type.Tag
	case "tree":
		if impl == 1 {
			return git.Type.Tree__Repr
		}
		return git.Type.Tree
	default:
		if impl == 1 {
			return git.Type.Blob__Repr
		}
		return git.Type.Blob
	}
}

func into(p ipld.NodePrototype, dec func(ipld.NodeAssembler) error) (ipld.Node, error) {
	nb := p.NewBuilder()
	if err := dec(nb); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

var implName = []string{"typed", "repr", "any"}

// memSystem is a link system over a map, as a user would set it up.
func memSystem(store map[string][]byte) linking.LinkSystem {
	ls := cidlink.DefaultLinkSystem()
	ls.StorageReadOpener = func(_ linking.LinkContext, l datamodel.Link) (io.Reader, error) {
		b, ok := store[l.Binary()]
		if !ok {
			return nil, fmt.Errorf("not found: %v", l)
		}
		return bytes.NewReader(b), nil
	}
	ls.StorageWriteOpener = func(linking.LinkContext) (io.Writer, linking.BlockWriteCommitter, error) {
		var buf bytes.Buffer
		return &buf, func(l datamodel.Link) error {
			store[l.Binary()] = buf.Bytes()
			return nil
		}, nil
	}
	return ls
}

// idOf is the link to an object, from its bytes alone.
func idOf(in []byte) cidlink.Link {
	s := sha1.Sum(in)
	return cidlink.Link{Cid: rawCid("\x01\x78\x11\x14" + string(s[:]))}
}

var entryPoints = func() []entryPoint {
	eps := []entryPoint{
		{"ParseObject", func(in []byte, _ string) (ipld.Node, error) { return git.ParseObject(bytes.NewReader(in)) }},
		{"ParseObjectFromBuffer", func(in []byte, _ string) (ipld.Node, error) { return git.ParseObjectFromBuffer(in) }},
		{"ParseCompressedObject", func(in []byte, _ string) (ipld.Node, error) {
			return git.ParseCompressedObject(bytes.NewReader(stored(in)))
		}},
		{"DecodeBlock", func(in []byte, _ string) (ipld.Node, error) {
			blk, err := blocks.NewBlockWithCid(in, idOf(in).Cid)
			must(err)
			return git.DecodeBlock(blk)
		}},
	}
	for i := 0; i < 3; i++ {
		eps = append(eps,
			entryPoint{"Decode " + implName[i], func(in []byte, typ string) (ipld.Node, error) {
				return into(protoFor(typ, i), func(na ipld.NodeAssembler) error { return git.Decode(na, bytes.NewReader(in)) })
			}},
			entryPoint{"decoder of the type " + implName[i], func(in []byte, typ string) (ipld.Node, error) {
				if typ == "" {
					return git.ParseObject(bytes.NewReader(in))
				}
				return into(protoFor(typ, i), func(na ipld.NodeAssembler) error {
					return perType(typ, na, mustReader(in[len(typ)+1:]))
				})
			}},
			entryPoint{"registered codec " + implName[i], func(in []byte, typ string) (ipld.Node, error) {
				d, err := multicodec.LookupDecoder(0x78)
				if err != nil {
					return nil, fmt.Errorf("git's codec is not registered: %w", err)
				}
				return into(protoFor(typ, i), func(na ipld.NodeAssembler) error { return d(na, bytes.NewReader(in)) })
			}},
			entryPoint{"link system " + implName[i], func(in []byte, typ string) (ipld.Node, error) {
				l := idOf(in)
				ls := memSystem(map[string][]byte{l.Binary(): in})
				return ls.Load(linking.LinkContext{Ctx: context.Background()}, l, protoFor(typ, i))
			}})
	}
	return eps
}()
