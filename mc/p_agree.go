package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"strings"

	blocks "github.com/ipfs/go-block-format"
	"github.com/ipfs/go-cid"
	git "github.com/ipfs/go-ipld-git"
)

// stored is a zlib stream without compression, made here.
func stored(b []byte) []byte {
	out := []byte{0x78, 0x01}
	for rest := b; ; {
		n := min(len(rest), 65535)
		last := byte(0)
		if n == len(rest) {
			last = 1
		}
		out = append(out, last, byte(n), byte(n>>8), byte(^n), byte(^n>>8))
		out = append(out, rest[:n]...)
		rest = rest[n:]
		if last == 1 {
			break
		}
	}
	return binary.BigEndian.AppendUint32(out, adler32.Checksum(b))
}

// agree runs all entry points on one input.
func agree(x *X, in []byte) error {
	x.Input(in)
	typ := typeWord(in)
	type res struct {
		val string
		err error
	}
	var first res
	for i, ep := range entryPoints {
		var r res
		if ep.name == "ParseCompressedObject" {
			n, err := git.ParseCompressedObject(bytes.NewReader(stored(in)))
			if err == nil {
				r.val, err = dump(n, typ == "tree")
			}
			r.err = err
		} else {
			n, err := ep.run(in, typ)
			if err == nil {
				r.val, err = dump(n, typ == "tree")
			}
			r.err = err
		}
		if i == 0 {
			first = r
			continue
		}
		switch {
		case first.err == nil && r.err != nil:
			return fmt.Errorf("%s accepts what %s rejects: %v", entryPoints[0].name, ep.name, r.err)
		case first.err != nil && r.err == nil:
			return fmt.Errorf("%s accepts what %s rejects: %v", ep.name, entryPoints[0].name, first.err)
		case first.val != r.val:
			return fmt.Errorf("%s gives\n %s\n%s gives\n %s", entryPoints[0].name, clip(first.val), ep.name, clip(r.val))
		}
	}
	if first.err != nil {
		x.Outcome("all reject %q", typ)
	} else {
		x.Outcome("all accept %q", typ)
	}
	return nil
}

func init() {
	register(&Property{ID: "C13",
		Bounds: map[string]any{"entry points": len(entryPoints), "inputs": "all objects and their values with up to 1 (thorough 2) deviations, all short sequences of header lines, all short words, all single-byte edits (12 values), all prefixes"},
		Scenarios: []*Scenario{
			{Name: "valid", Desc: "valid objects of every shape", Bound: 1, Thorough: 2, Run: func(x *X) error {
				switch x.All(4) {
				case 0:
					s := shape{x.AllInt([]int{0, 2}), x.AllInt([]int{0, 2}), x.AllInt([]int{0, 1}), x.All(2) == 1, x.All(2) == 1, x.All(2) == 1, x.All(2) == 1}
					return agree(x, Wire(s.fill(x)))
				case 1:
					t := &Tag{x.Str(hexes), x.Str(tagTypes), x.Str(tagNames), nil, x.Str(messages)}
					if x.All(2) == 1 {
						t.Tagger = genPerson(x)
					}
					return agree(x, Wire(t))
				case 2:
					t := Tree{}
					for i := x.All(3); i > 0; i-- {
						t = append(t, Entry{x.Str(modes), fmt.Sprint(i) + x.Str(entryNames), x.Str(shas)})
					}
					return agree(x, Wire(t))
				default:
					return agree(x, Wire(Blob(x.AllStr(messages))))
				}
			}},
			{Name: "interactions", Desc: interactingDesc, Bound: 2, Thorough: 4, Run: func(x *X) error {
				return agree(x, Wire(interacting(x)))
			}},
			{Name: "long", Desc: "objects longer than the buffers in use", Run: func(x *X) error {
				return agree(x, Wire(fixedLong[x.All(len(fixedLong))]))
			}},
			{Name: "commit-lines", Desc: "all short sequences of commit header lines", Run: func(x *X) error {
				return agree(x, wire("commit", []byte(tokens(x, headerTokens, pick(2, 3), 1))))
			}},
			{Name: "commit-lines-deep", Desc: "longer sequences of structural lines after a tree", Run: func(x *X) error {
				return agree(x, wire("commit", []byte("tree "+hexA+"\n"+tokens(x, headerTokens[1:15], pick(3, 4), 1))))
			}},
			{Name: "tag-lines", Desc: "all short sequences of tag header lines", Run: func(x *X) error {
				return agree(x, wire("tag", []byte(tokens(x, tagTokens, pick(3, 4), 1))))
			}},
			{Name: "words", Desc: "all words over structural bytes and keywords, as a whole input", Run: func(x *X) error {
				return agree(x, []byte(word(x, []string{" ", "\x00", "0", "1", "blob", "tree", "commit", "tag", "\n", "Tree", "-"}, pick(4, 5))))
			}},
			{Name: "types", Desc: "type words of every spelling", Run: func(x *X) error {
				o := fixedSeeds[x.All(len(fixedSeeds))]
				body := o.Body()
				w := x.AllStr([]string{"blob", "tree", "commit", "tag", "Blob", "TREE", "commits", "tagg", "", "blob\x00", "\nblob", "blo", "tre", "commi", "ta", "object", "mergetag", "b", "tree\t", "\xef\xbb\xbfblob", "blob  ", " tree"})
				return agree(x, append([]byte(fmt.Sprintf("%s %d\x00", w, len(body))), body...))
			}},
			{Name: "edits", Desc: "one byte of a valid object changed", Run: func(x *X) error {
				o := fixedSeeds[x.All(len(fixedSeeds))]
				in := append([]byte{}, Wire(o)...)
				keep := x.All(2) == 0
				if keep {
					return agree(x, mutateFew(x, in))
				}
				return agree(x, wire(o.Typ(), mutateFew(x, append([]byte{}, o.Body()...))))
			}},
			{Name: "edits-all", Only: "thorough", Desc: "one byte of a valid object changed in every way", Run: func(x *X) error {
				o := fixedSeeds[x.All(len(fixedSeeds))]
				return agree(x, wire(o.Typ(), mutate(x, append([]byte{}, o.Body()...))))
			}},
			{Name: "prefixes", Desc: "every prefix of every object", Run: func(x *X) error {
				o := fixedSeeds[x.All(len(fixedSeeds))]
				in := Wire(o)
				return agree(x, in[:x.All(len(in))])
			}},
			{Name: "trees", Desc: "all short sequences of tree entries over a colliding alphabet", Run: func(x *X) error {
				var t Tree
				al := []Entry{{"100644", "a", shas[0]}, {"40000", "b", shas[1]}, {"1", "", shas[4]}, {"160000", "tree", shas[3]}, {"160000", "object", shas[3]}}
				for i := x.All(pick(5, 6)); i > 0; i-- {
					t = append(t, al[x.All(len(al))])
				}
				return agree(x, Wire(t))
			}},
		}})

	register(&Property{ID: "C21",
		Bounds: map[string]any{"cids": len(cidForms()), "codecs and hashes": "all one-byte codes and those that share their low or high bytes with the right ones", "one name": "every order of the accepted and refused forms of one name, so that what was refused or accepted before makes no difference", "data": "valid and damaged objects, every single-byte edit of small ones with the right CID"},
		Scenarios: []*Scenario{
			{Name: "prefixes", Desc: "every version, codec, hash function and length, with valid and invalid data", Run: func(x *X) error {
				cs := cidForms()
				cf := cs[x.All(len(cs))]
				ds := blockData()
				d := ds[x.All(len(ds))]
				x.State(cf.name)
				x.Input(d)
				return blockOf(x, cf, d)
			}},
			{Name: "lengths", Desc: "every digest length from 0 to 64, for SHA-1 and other functions, with git's codec", Run: func(x *X) error {
				n := x.All(65)
				mh := x.AllStr([]string{"\x11", "\x12", "\x00", "\x13", "\x16", "\x94\xe4\x02", "\x56", "\xd5\x01"})
				cf := cidForm{fmt.Sprintf("hash %x of %d bytes", mh, n), "\x01\x78" + mh + string([]byte{byte(n)}) + rep("\xcd", n), mh == "\x11" && n == 20}
				return blockOf(x, cf, blockData()[x.All(3)])
			}},
			{Name: "codecs", Desc: "every one-byte codec, and others, with a SHA-1", Run: func(x *X) error {
				k := x.All(128 + len(moreCodecs))
				codec := ""
				if k < 128 {
					codec = string([]byte{byte(k)})
				} else {
					codec = moreCodecs[k-128]
				}
				cf := cidForm{fmt.Sprintf("codec %x", codec), "\x01" + codec + "\x11\x14" + rep("\xcd", 20), codec == "\x78"}
				return blockOf(x, cf, blockData()[x.All(3)])
			}},
			{Name: "near", Desc: "every codec and hash function whose number differs from git's in one bit, or agrees with it in its low bits", Run: func(x *X) error {
				codec, h := uint64(0x78), uint64(0x11)
				p := &codec
				if x.All(2) == 1 {
					p = &h
				}
				switch k := x.All(4); k {
				case 0:
					*p ^= 1 << x.All(62)
				case 1, 2, 3: // the same low 8, 16 or 32 bits
					*p |= uint64(1+x.All(255)) << []int{8, 16, 32}[k-1]
				}
				b := binary.AppendUvarint([]byte{1}, codec)
				b = append(binary.AppendUvarint(b, h), 20)
				cf := cidForm{fmt.Sprintf("codec %x hash %x", codec, h), string(b) + rep("\xcd", 20), false}
				return blockOf(x, cf, blockData()[x.All(3)])
			}},
			{Name: "one-name", Desc: "two blocks of different data under one name, each judged by its own data", Run: func(x *X) error {
				ds := blockData()
				for i := 0; i < 3; i++ {
					if err := blockOf(x, cidForm{"one name", "\x01\x78\x11\x14" + rep("\xc2", 20), true}, ds[x.All(len(ds))]); err != nil {
						return err
					}
				}
				return nil
			}},
			{Name: "hashes", Desc: "every one-byte hash function of 20 bytes with git's codec", Run: func(x *X) error {
				h := byte(x.All(128))
				cf := cidForm{fmt.Sprintf("hash %x", h), "\x01\x78" + string([]byte{h}) + "\x14" + rep("\xcd", 20), h == 0x11}
				return blockOf(x, cf, blockData()[x.All(3)])
			}},
			{Name: "data", Desc: "with a right CID, exactly what parsing accepts is accepted, with the same value", Run: func(x *X) error {
				o := fixedSeeds[x.All(len(fixedSeeds))]
				in := append([]byte{}, Wire(o)...)
				if x.All(2) == 1 {
					in = mutateFew(x, in)
				} else {
					in = wire(o.Typ(), mutateFew(x, append([]byte{}, o.Body()...)))
				}
				return blockOf(x, cidForm{"right", idOf(in).Binary(), true}, in)
			}},
			{Name: "lines", Desc: "with a right CID, all short sequences of header lines", Run: func(x *X) error {
				in := wire("commit", []byte("tree "+hexA+"\n"+tokens(x, headerTokens[1:], pick(2, 3), 1)))
				return blockOf(x, cidForm{"right", idOf(in).Binary(), true}, in)
			}},
			{Name: "prefixes-of-data", Desc: "with a right CID, every prefix of every object", Run: func(x *X) error {
				in := Wire(fixedSeeds[x.All(len(fixedSeeds))])
				in = in[:x.All(len(in)+1)]
				return blockOf(x, cidForm{"right", idOf(in).Binary(), true}, in)
			}},
		}})
}

type cidForm struct {
	name  string
	bytes string
	git   bool
}

var moreCodecs = []string{"\x81\x01", "\x90\x01", "\xb0\x02", "\x85\x01", "\xa9\x02", "\xf8\x01", "\x82\xe0\x03", "\x97\x01"}

func cidForms() []cidForm {
	var out []cidForm
	for _, codec := range []string{"\x78", "\x55", "\x70", "\x71", "\x72", "\x79", "\x77", "\xa9\x02", "\x90\x01", "\x00"} {
		for _, h := range []struct {
			code string
			n    int
		}{{"\x11", 20}, {"\x11", 19}, {"\x11", 21}, {"\x11", 0}, {"\x11", 32}, {"\x12", 32}, {"\x12", 20}, {"\x00", 20}, {"\x00", 0}, {"\x13", 64}, {"\x13", 20}, {"\x94\xe4\x02", 20}, {"\x16", 32}, {"\xd5\x01", 16}} {
			out = append(out, cidForm{fmt.Sprintf("v1 codec %x hash %x of %d", codec, h.code, h.n),
				"\x01" + codec + h.code + string([]byte{byte(h.n)}) + rep("\xab", h.n), codec == "\x78" && h.code == "\x11" && h.n == 20})
		}
	}
	out = append(out, cidForm{"v0", "\x12\x20" + rep("\xab", 32), false})
	return out
}

func blockData() [][]byte {
	var out [][]byte
	for _, o := range fixedSeeds {
		out = append(out, Wire(o))
	}
	out = append(out, nil, []byte("x"), []byte("blob 3\x00ab"), []byte("tree 5\x00abcde"), []byte("commit 0\x00"), []byte("tag 0\x00"), []byte("nope 0\x00"), []byte("blob 0\x00\x00"))
	out[0], out[1], out[2] = Wire(fixedSeeds[1]), Wire(fixedSeeds[11]), []byte("blob 3\x00ab")
	return out
}

func blockOf(x *X, cf cidForm, data []byte) error {
	x.Input(data)
	x.State(cf.name, data)
	c, err := cid.Cast([]byte(cf.bytes))
	if err != nil {
		x.Outcome("not a CID for this library")
		return nil
	}
	keep := append([]byte{}, data...)
	blk, err := blocks.NewBlockWithCid(data, c)
	must(err)
	n, err := git.DecodeBlock(blk)
	if !bytes.Equal(data, keep) {
		return fmt.Errorf("the block's data is changed")
	}
	if !cf.git {
		x.Outcome("another kind of CID, rejected")
		if err == nil {
			return fmt.Errorf("a block with a CID of another kind (%s) is accepted", cf.name)
		}
		return nil
	}
	want, werr := git.ParseObject(bytes.NewReader(data))
	if (err == nil) != (werr == nil) {
		return fmt.Errorf("DecodeBlock: %v, ParseObject: %v", err, werr)
	}
	j := judge(data)
	if err != nil {
		x.Outcome("git CID, bad data, rejected")
		if j.v == mustAccept {
			return fmt.Errorf("a well-formed %s is rejected: %v", j.why, err)
		}
		return nil
	}
	x.Outcome("git CID, accepted")
	if j.v == mustReject {
		return fmt.Errorf("malformed data is accepted (%s)", j.why)
	}
	tree := strings.HasPrefix(string(data), "tree ")
	a, err := dump(n, tree)
	if err != nil {
		return err
	}
	b, err := dump(want, tree)
	if err != nil {
		return err
	}
	if j.v == mustAccept {
		if err := expectNode(n, j.obj); err != nil {
			return err
		}
	}
	return eqs("node of DecodeBlock", a, b)
}
