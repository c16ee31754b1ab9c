package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"fmt"
	"io"
	"sync"
	"testing/iotest"

	git "github.com/ipfs/go-ipld-git"
)

var zLevels = []int{-2, 0, 1, 6, 9}

type zKey struct{ obj, level int }

var (
	zMu    sync.Mutex
	zCache = map[zKey][]byte{}
)

// zOf is object number i, compressed; level 100 is the form without compression
// that is made here.
func zOf(i, level int) (Object, []byte) {
	o := ioObjects()[i]
	zMu.Lock()
	defer zMu.Unlock()
	k := zKey{i, level}
	if zCache[k] == nil {
		if level == 100 {
			zCache[k] = stored(Wire(o))
		} else {
			zCache[k] = compress(Wire(o), level)
		}
	}
	return o, zCache[k]
}

// damaged: an error, or the very object.
func damaged(x *X, o Object, z []byte, r io.Reader) error {
	n, err := git.ParseCompressedObject(r)
	if err != nil {
		x.Outcome("error")
		return nil
	}
	x.Outcome("the object")
	if n == nil {
		return fmt.Errorf("neither a node nor an error")
	}
	if err := expectNode(n, o); err != nil {
		return fmt.Errorf("damaged data give another object: %w", err)
	}
	return nil
}

func init() {
	ls := append([]int{100}, zLevels...)
	pickZ := func(x *X, long bool) (Object, []byte) {
		i := x.All(len(fixedSeeds))
		if long {
			i = len(fixedSeeds) + x.All(len(fixedLong))
		}
		return zOf(i, x.AllInt(ls))
	}
	register(&Property{ID: "C23",
		Bounds: map[string]any{"objects": len(ioObjects()), "zlib levels": append([]int{}, zLevels...), "damage": "every truncation; every flip of one bit; a flip together with each end of the stream; thorough: every replacement of one byte of the small ones, and a truncation after a flip"},
		Scenarios: []*Scenario{
			{Name: "intact", Desc: "what is not damaged is read", Run: func(x *X) error {
				o, z := pickZ(x, x.All(2) == 1)
				x.Input(z)
				n, err := git.ParseCompressedObject(bytes.NewReader(z))
				if err != nil {
					return fmt.Errorf("an intact object is rejected: %v", err)
				}
				return expectNode(n, o)
			}},
			{Name: "truncations", Desc: "every truncation; the object is never complete without its checksum", Run: func(x *X) error {
				o, z := pickZ(x, false)
				t := z[:x.All(len(z))]
				x.Input(t)
				var r io.Reader = bytes.NewReader(t)
				if k := x.All(3); k == 1 {
					r = iotest.OneByteReader(r)
				} else if k == 2 {
					r = io.MultiReader(bytes.NewReader(t), iotest.ErrReader(errInjected))
				}
				return damaged(x, o, t, r)
			}},
			{Name: "no-stream", Desc: "what is no zlib stream: the object itself after some bytes, without the stream's header or checksum, in another format, compressed twice: never another object", Run: func(x *X) error {
				o := fixedSeeds[x.All(len(fixedSeeds))]
				in, z := Wire(o), packed(o)
				pre := x.AllStr([]string{"", "x", "xx", "\x78\x9c", "\x78\x01", "\x78\xda", "\x78\xbb", "\x08\x1d", "\x1f\x8b", "PK", "\xef\xbb\xbf", "\x00\x00", "\n", " ", "xxxx", "blob 3\x00"})
				var d []byte
				switch x.All(7) {
				case 0:
					d = in
				case 1:
					d = z[2:]
				case 2:
					d = z[2 : len(z)-4]
				case 3:
					d = compress(z, 6)
				case 4:
					d = z
				case 5:
					var b bytes.Buffer
					w := gzip.NewWriter(&b)
					w.Write(in)
					w.Close()
					d = b.Bytes()
				default:
					d = append(append([]byte{}, in...), z...)
				}
				d = append([]byte(pre), d...)
				x.Input(d)
				whole := false // the stream that one of these may happen to be
				if r, err := zlib.NewReader(bytes.NewReader(d)); err == nil {
					b, err := io.ReadAll(r)
					whole = err == nil && bytes.Equal(b, in)
				}
				n, err := git.ParseCompressedObject(bytes.NewReader(d))
				x.Outcome("accepted: %v", err == nil)
				switch {
				case whole && err != nil:
					return fmt.Errorf("an object is rejected: %v", err)
				case whole:
					return expectNode(n, o)
				case err == nil:
					return fmt.Errorf("what is no compressed object is accepted")
				}
				return nil
			}},
			{Name: "long-truncations", Desc: "every truncation of objects longer than the buffers in use", Run: func(x *X) error {
				o, z := zOf(len(fixedSeeds)+x.All(len(fixedLong)), x.AllInt(pick([]int{6, -2}, ls)))
				t := z[:x.All(len(z))]
				x.Input(t)
				return damaged(x, o, t, bytes.NewReader(t))
			}},
			{Name: "flips", Desc: "every flip of one bit", Run: func(x *X) error {
				o, z := pickZ(x, false)
				i := x.All(len(z) * 8)
				d := append([]byte{}, z...)
				d[i/8] ^= 1 << (i % 8)
				x.Input(d)
				return damaged(x, o, d, bytes.NewReader(d))
			}},
			{Name: "long-flips", Desc: "every flip of one bit in longer objects", Run: func(x *X) error {
				o, z := zOf(len(fixedSeeds)+x.All(len(fixedLong)), x.AllInt(pick([]int{6}, ls)))
				i := x.All(len(z) * 8)
				d := append([]byte{}, z...)
				d[i/8] ^= 1 << (i % 8)
				x.Input(d)
				return damaged(x, o, d, bytes.NewReader(d))
			}},
			{Name: "checksum", Desc: "every value of every byte of the checksum", Run: func(x *X) error {
				long := x.All(2) == 1
				o, z := pickZ(x, long)
				d := append([]byte{}, z...)
				at := len(d) - 1 - x.All(4)
				if long && !thorough() {
					d[at] ^= byte(x.AllInt([]int{0, 1, 0x80, 0xff}))
				} else {
					d[at] = byte(x.All(256))
				}
				x.Input(d)
				n, err := git.ParseCompressedObject(bytes.NewReader(d))
				same := bytes.Equal(d, z)
				x.Outcome("same: %v", same)
				if same != (err == nil) {
					return fmt.Errorf("checksum intact: %v, result: %v", same, err)
				}
				if err == nil {
					return expectNode(n, o)
				}
				return nil
			}},
			{Name: "flip-and-tail", Desc: "a flip of one bit, and the checksum cut off or cut short or changed as well; from readers of several kinds", Run: func(x *X) error {
				i := x.AllInt(pick([]int{0, 1, 4, 8, 10}, []int{0, 1, 2, 4, 6, 8, 10, 12}))
				o, z := zOf(i, x.AllInt(pick([]int{100, 0, 6, -2}, ls)))
				b := x.All(len(z) * 8)
				d := append([]byte{}, z...)
				d[b/8] ^= 1 << (b % 8)
				switch k := x.All(6); k {
				case 0:
					d = append(d, z...)
				case 1, 2, 3, 4:
					d = d[:len(d)-k]
				case 5:
					d[len(d)-1] ^= 0x80
				}
				x.Input(d)
				var r io.Reader = bytes.NewReader(d)
				switch x.All(4) {
				case 1:
					r = iotest.OneByteReader(r)
				case 2:
					r = bytes.NewBuffer(d)
				case 3:
					r = bufio.NewReader(r)
				}
				return damaged(x, o, d, r)
			}},
			{Name: "flip-and-cut", Only: "thorough", Desc: "a flip of one bit and a truncation", Run: func(x *X) error {
				i := x.AllInt([]int{0, 1, 4, 8, 10})
				o, z := zOf(i, x.AllInt(ls))
				b := x.All(len(z) * 8)
				d := append([]byte{}, z...)
				d[b/8] ^= 1 << (b % 8)
				d = d[:x.All(len(d)+1)]
				x.Input(d)
				return damaged(x, o, d, bytes.NewReader(d))
			}},
		}})
}
