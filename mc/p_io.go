package main

import (
	"bufio"
	"bytes"
	"compress/flate"
	"compress/zlib"
	"context"
	"crypto/sha1"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
	"testing/iotest"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
)

func compress(b []byte, level int) []byte {
	var z bytes.Buffer
	w, err := zlib.NewWriterLevel(&z, level)
	must(err)
	w.Write(b)
	must(w.Close())
	return z.Bytes()
}

// entry points that take a reader
var readerEntries = []string{"ParseObject", "Decode", "Decode repr", "ParseCompressedObject"}

func decodeBy(entry string, typ string, r io.Reader) (ipld.Node, error) {
	switch entry {
	case "ParseObject":
		return git.ParseObject(r)
	case "ParseCompressedObject":
		return git.ParseCompressedObject(r)
	default:
		nb := builderFor(typ, entry == "Decode repr")
		if err := git.Decode(nb, r); err != nil {
			return nil, err
		}
		return nb.Build(), nil
	}
}

// perType calls the decoder of one type on what follows the type word.
func perType(typ string, nb ipld.NodeAssembler, rd *bufio.Reader) error {
	switch typ {
	case "commit":
		return git.DecodeCommit(nb, rd)
	case "tag":
		return git.DecodeTag(nb, rd)
	case "tree":
		return git.DecodeTree(nb, rd)
	default:
		return git.DecodeBlob(nb, rd)
	}
}

// onStream decodes an object from a reader and compares with what it must be.
func onStream(x *X, entry string, o Object, mk func(data []byte) io.Reader) error {
	in := Wire(o)
	x.Input(in)
	data := in
	if entry == "ParseCompressedObject" {
		data = packed(o)
	}
	r := mk(data)
	if pr, ok := r.(*planReader); ok {
		next := pr.next
		pr.next = func(avail int) (int, error) {
			n, err := next(avail)
			x.State("read", o.Typ(), len(data), len(pr.data), n, entry)
			return n, err
		}
	}
	n, err := decodeBy(entry, o.Typ(), r)
	if err != nil {
		return fmt.Errorf("%s of a well-formed %s that arrives in pieces fails: %v", entry, o.Typ(), err)
	}
	return expectNode(n, o)
}

var (
	fixedSeeds = fix(seeds())
	fixedLong  = fix(longSeeds())
)

// packed is the compressed form.
func packed(o Object) []byte {
	if f, ok := o.(*fixed); ok {
		return f.z
	}
	return compress(Wire(o), zlib.BestSpeed)
}

func ioObjects() []Object { return append(fixedSeeds[:len(fixedSeeds):len(fixedSeeds)], fixedLong...) }

func streamLen(entry string, o Object) int {
	if entry == "ParseCompressedObject" {
		return len(packed(o))
	}
	return len(Wire(o))
}

func init() {
	register(&Property{ID: "C11",
		Bounds: map[string]any{"objects": len(ioObjects()), "divisions": "every division in two of every object; every division whatsoever of the smallest ones; every fixed size from 1 to 70 and around 4096; per-read choices with up to 2 (thorough 3) deviations", "failures": "at every byte, alone or with data, every kind of error (one that says it is io.EOF excepted), for good, or once and then the end or the rest of the data", "entry points": readerEntries},
		Scenarios: []*Scenario{
			{Name: "two-parts", Desc: "every division of every object into two reads, the end with or after the last bytes, empty reads in between", Run: func(x *X) error {
				os := fixedSeeds
				o := os[x.All(len(os))]
				entry := x.AllStr(readerEntries)
				cut := x.All(streamLen(entry, o) + 1)
				mode := x.All(4)
				x.Outcome("%s mode %d", entry, mode)
				return onStream(x, entry, o, func(d []byte) io.Reader {
					first, zero := true, mode >= 2
					return &planReader{data: d, withEnd: mode%2 == 1, next: func(avail int) (int, error) {
						if zero {
							zero = false
							return 0, nil
						}
						zero = mode >= 2
						if first {
							first = false
							if cut == 0 {
								return 0, nil
							}
							return cut, nil
						}
						return avail, nil
					}}
				})
			}},
			{Name: "two-parts-long", Desc: "the same for objects longer than the buffers, at the cuts around them", Run: func(x *X) error {
				os := fixedLong
				o := os[x.All(len(os))]
				entry := x.AllStr(readerEntries)
				n := streamLen(entry, o)
				cut := min(n, x.All((n+pick(96, 4))/pick(97, 5)+1)*pick(97, 5))
				mode := x.All(2)
				x.Outcome("%s mode %d", entry, mode)
				return onStream(x, entry, o, func(d []byte) io.Reader {
					done := false
					return &planReader{data: d, withEnd: mode == 1, next: func(avail int) (int, error) {
						if !done {
							if avail >= cut {
								done = true
								return cut, nil
							}
							cut -= avail
						}
						return avail, nil
					}}
				})
			}},
			{Name: "fixed-sizes", Desc: "reads of one fixed size", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				entry := x.AllStr(readerEntries)
				k := x.All(82) + 1
				if k > 70 {
					k = []int{100, 128, 512, 1000, 1024, 2048, 4090, 4094, 4095, 4096, 4097, 8192}[k-71]
				}
				mode := x.All(3)
				x.Outcome("%s mode %d", entry, mode)
				return onStream(x, entry, o, func(d []byte) io.Reader {
					z := false
					return &planReader{data: d, withEnd: mode == 1, next: func(avail int) (int, error) {
						if mode == 2 {
							if z = !z; z {
								return 0, nil
							}
						}
						return k, nil
					}}
				})
			}},
			{Name: "all-divisions", Desc: "every division whatsoever of the smallest objects", Run: func(x *X) error {
				os := []Object{Blob(""), Blob("hi"), Blob("a\x00b"), Tree{}}
				if thorough() {
					os = append(os, Blob("0123456789ab"))
				}
				o := os[x.All(len(os))]
				entry := x.AllStr(readerEntries[:3])
				end := x.All(2)
				var sizes []int
				left := len(Wire(o))
				for left > 0 {
					k := x.All(left) + 1
					sizes = append(sizes, k)
					left -= k
				}
				x.Outcome("%d reads", len(sizes))
				return onStream(x, entry, o, func(d []byte) io.Reader {
					i := 0
					return &planReader{data: d, withEnd: end == 1, next: func(avail int) (int, error) {
						i++
						return sizes[i-1], nil
					}}
				})
			}},
			{Name: "choices", Desc: "at every read: all, one byte, half, nothing, or all but one byte", Bound: 2, Thorough: 3, Run: func(x *X) error {
				os := pick(append(fixedSeeds[:len(fixedSeeds):len(fixedSeeds)], fixedLong[3]), ioObjects())
				o := os[x.All(len(os))]
				entry := x.AllStr(pick(readerEntries[:1], readerEntries))
				chunk := 1 << 20
				if len(Wire(o)) < 2000 || thorough() {
					chunk = x.AllInt(pick([]int{1 << 20, 7, 1}, []int{1 << 20, 7, 64, 1}))
				}
				return onStream(x, entry, o, func(d []byte) io.Reader {
					asked := 0
					return &planReader{data: d, withEnd: x.Bool(), next: func(avail int) (int, error) {
						c := min(avail, chunk)
						if asked++; asked > pick(14, 24) {
							return c, nil
						}
						switch x.Choose(5) {
						case 1:
							return 1, nil
						case 2:
							return (c + 1) / 2, nil
						case 3:
							return 0, nil
						case 4:
							return max(1, c-1), nil
						}
						return c, nil
					}}
				})
			}},
			{Name: "failures", Desc: "the reader fails at every byte, alone or along with data", Run: func(x *X) error {
				os := fixedSeeds
				o := os[x.All(len(os))]
				entry := x.AllStr(readerEntries)
				return failAt(x, entry, o, x.All(failPoints(entry, o)))
			}},
			{Name: "failures-long", Desc: "the reader fails at places spread over long objects, and around buffer sizes", Run: func(x *X) error {
				os := fixedLong
				o := os[x.All(len(os))]
				entry := x.AllStr(readerEntries)
				n := failPoints(entry, o) - 1
				step := pick(61, 7)
				at := 0
				if x.All(2) == 0 {
					at = min(n, x.All(n/step+1)*step)
				} else {
					at = min(n, x.AllInt([]int{4094, 4095, 4096, 4097, 8191, 8192, 8193, n - 1, n, n - 20, n - 21}))
				}
				return failAt(x, entry, o, max(0, at))
			}},
			{Name: "small-buffers", Desc: "the per-type decoders with the caller's own buffered readers of every size", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				in := Wire(o)
				x.Input(in)
				size := x.AllInt(around([]int{16, 17, 20, 31, 32, 64, 100, 512, 4095, 4096, 4097, 65536}, 131072))
				var r io.Reader = bytes.NewReader(in[len(o.Typ())+1:])
				switch x.All(4) {
				case 1:
					r = iotest.OneByteReader(r)
				case 2:
					r = iotest.DataErrReader(r)
				case 3:
					r = iotest.HalfReader(r)
				}
				nb := builderFor(o.Typ(), x.All(2) == 1)
				if err := perType(o.Typ(), nb, bufio.NewReaderSize(r, size)); err != nil {
					return fmt.Errorf("with a buffer of %d bytes, decoding fails: %v", size, err)
				}
				x.Outcome("buffer %d", size)
				return expectNode(nb.Build(), o)
			}},
			{Name: "reader-kinds", Desc: "readers of the standard library that also offer other interfaces", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				entry := x.AllStr(readerEntries)
				k := x.All(9)
				x.Outcome("kind %d", k)
				return onStream(x, entry, o, func(d []byte) io.Reader {
					switch k {
					case 0:
						return bytes.NewBuffer(append([]byte{}, d...))
					case 1:
						return bufio.NewReaderSize(bytes.NewReader(d), 16)
					case 2:
						return bufio.NewReaderSize(bytes.NewReader(d), 1<<16)
					case 3:
						return io.LimitReader(io.MultiReader(bytes.NewReader(d), zeros{}), int64(len(d)))
					case 4:
						h := len(d) / 2
						return io.MultiReader(bytes.NewReader(d[:h]), bytes.NewReader(d[h:]))
					case 5:
						return io.TeeReader(bytes.NewReader(d), io.Discard)
					case 6:
						return io.NewSectionReader(bytes.NewReader(append([]byte("skip"), d...)), 4, int64(len(d)))
					case 7:
						return iotest.HalfReader(iotest.DataErrReader(bytes.NewReader(d)))
					default:
						pr, pw := io.Pipe()
						go func() {
							for i := 0; i < len(d); i += 1000 {
								if _, err := pw.Write(d[i:min(len(d), i+1000)]); err != nil {
									return
								}
							}
							pw.Close()
						}()
						return pr
					}
				})
			}},
		}})

	register(&Property{ID: "C12",
		Bounds: map[string]any{"objects": len(ioObjects()), "failures": "at every byte of short objects and at every 7th of long ones, accepting none or part of the failing write; at every call; once or for good"},
		Scenarios: []*Scenario{
			{Name: "at-byte", Desc: "the writer fails after every number of bytes", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				n := len(Wire(o))
				at := 0
				if n < 2000 {
					at = x.All(n + 1)
				} else {
					at = min(n, x.All(n/pick(41, 5)+1)*pick(41, 5))
				}
				mode := x.All(3)
				e := []error{errInjected, io.EOF, transient{}}[x.All(3)]
				return writeFault(x, o, x.All(2), func() func(int) (int, error) {
					left := at
					return func(k int) (int, error) {
						if k <= left && !(mode == 1 && k == left) {
							left -= k
							return k, nil
						}
						n := min(left, k)
						left = 0
						if mode == 2 { // recovers afterwards
							left = 1 << 30
						}
						return n, e
					}
				}, at < n)
			}},
			{Name: "at-call", Desc: "the writer fails at every call, having accepted nothing, half or everything", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				at, part, once := x.All(12), x.All(3), x.All(2)
				es := append([]error{io.EOF, io.ErrShortWrite, syscall.EPIPE}, faults...)
				e := es[x.All(len(es))]
				return writeFault(x, o, x.All(2), func() func(int) (int, error) {
					c := 0
					return func(k int) (int, error) {
						c++
						if c-1 == at || (c-1 > at && once == 0) {
							return []int{0, k / 2, k}[part], e
						}
						return k, nil
					}
				}, false)
			}},
			{Name: "sized", Desc: "objects of sizes around the constants of the code, and sizes that would be written in parts: the writer fails at every call, and after numbers of bytes around multiples of a power of two, once or for good", Run: func(x *X) error {
				size := x.AllInt(writeSizes)
				o := bigObject(x.All(5), size)
				once := x.All(2) == 1
				impl := x.All(2)
				if x.All(2) == 0 {
					at, part := x.All(6), x.All(4)
					return writeFault(x, o, impl, func() func(int) (int, error) {
						c := 0
						return func(k int) (int, error) {
							c++
							if c-1 == at || (c-1 > at && !once) {
								return []int{0, min(1, k), k / 2, k}[part], errInjected
							}
							return k, nil
						}
					}, false)
				}
				n := len(Wire(o))
				at := x.AllInt([]int{0, 1, n / 2, n - 1, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073})
				if at >= n {
					return nil
				}
				return writeFault(x, o, impl, func() func(int) (int, error) {
					left := at
					return func(k int) (int, error) {
						if k <= left {
							left -= k
							return k, nil
						}
						n := min(left, k)
						left = 0
						if once {
							left = 1 << 30
						}
						return n, errInjected
					}
				}, true)
			}},
			{Name: "sinks", Desc: "writers of the standard library", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				in := Wire(o)
				x.Input(in)
				n, err := git.ParseObject(bytes.NewReader(in))
				if err != nil {
					return err
				}
				kind := x.All(7)
				x.Outcome("kind %d", kind)
				var got bytes.Buffer
				switch kind {
				case 0:
					w := bufio.NewWriterSize(&got, 16)
					err = git.Encode(n, w)
					w.Flush()
				case 1:
					h := sha1.New()
					err = git.Encode(n, io.MultiWriter(&got, h))
					if want := sha1.Sum(in); !bytes.Equal(h.Sum(nil), want[:]) {
						return fmt.Errorf("the hash of what is written is not the object's")
					}
				case 2:
					err = git.Encode(n, onlyWriter{&got})
				case 3:
					w := bufio.NewWriterSize(onlyWriter{&got}, 1<<16)
					err = git.Encode(n, w)
					w.Flush()
				case 4:
					pr, pw := io.Pipe()
					done := make(chan struct{})
					go func() { io.Copy(&got, pr); close(done) }()
					err = git.Encode(n, pw)
					pw.Close()
					<-done
				case 5:
					err = git.Encode(n, &retaining{w: &got})
				case 6:
					got.WriteString("kept")
					err = git.Encode(n, &got)
					if !bytes.HasPrefix(got.Bytes(), []byte("kept")) {
						return fmt.Errorf("what the writer held before is gone")
					}
					got.Next(4)
				}
				if err != nil {
					return fmt.Errorf("encoding to a writer that does not fail gives an error: %v", err)
				}
				if !bytes.Equal(got.Bytes(), in) {
					return fmt.Errorf("other bytes are written: %s", diffAt(got.Bytes(), in))
				}
				return nil
			}},
		}})
}

var writeSizes = around([]int{1, 100, 1000, 4096, 32768, 40000, 65536, 70000, 140000}, 200000)

// bigObject is an object of one of five forms, with a text of that length.
func bigObject(form, n int) Object {
	s := rep("0123456\n", n/8+1)[:n]
	switch form {
	case 0:
		return Blob(s)
	case 1:
		return &Commit{Tree: hexA, Author: person1(), Message: s}
	case 2:
		return &Tag{hexA, "commit", "v", person1(), s}
	case 3:
		return Tree{{"100644", "a", shas[0]}, {"100644", rep("n", n), shas[1]}, {"100644", "z", shas[2]}}
	default:
		t := Tree{}
		for i := 0; i < n/28+1; i++ {
			t = append(t, Entry{"100644", fmt.Sprintf("n%06d", i), raw(hexN(i))})
		}
		return t
	}
}

type readerFunc func(p []byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) { return f(p) }

type zeros struct{}

func (zeros) Read(p []byte) (int, error) { clear(p); return len(p), nil }

type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(p []byte) (int, error) { return o.w.Write(p) }

// retaining scribbles over the buffer it was given after copying it, as a writer
// must not, but a later write must not depend on an earlier one's buffer.
type retaining struct{ w io.Writer }

func (r *retaining) Write(p []byte) (int, error) { return r.w.Write(p) }

// failPoints: a compressed stream says itself where it ends, so that a failure
// after its last byte need not be noticed.
func failPoints(entry string, o Object) int {
	if entry == "ParseCompressedObject" {
		return streamLen(entry, o)
	}
	return streamLen(entry, o) + 1
}

// faults are the errors a failing reader or writer returns. None of them is io.EOF,
// or says that it is when errors.Is asks: whether the latter means the end of the
// input is for the decoder to say. One has the same text.
var faults = []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, io.ErrNoProgress, io.ErrShortBuffer, context.Canceled,
	&os.PathError{Op: "read", Path: "x", Err: io.ErrClosedPipe}, errors.New("EOF"), flate.CorruptInputError(3), zlib.ErrChecksum, transient{}}

// transient is an error that may go away, as those of a network connection.
type transient struct{}

func (transient) Error() string   { return "try again" }
func (transient) Timeout() bool   { return true }
func (transient) Temporary() bool { return true }

func failAt(x *X, entry string, o Object, at int) error {
	in := Wire(o)
	x.Input(in)
	data := in
	if entry == "ParseCompressedObject" {
		data = packed(o)
	}
	x.State("fail", entry, at)
	e := faults[x.All(len(faults))]
	with := x.All(2) == 1
	after := 0 // the same error again, the end, or the rest of the data
	if !with {
		after = x.All(3)
	}
	left := at
	failed := 0
	if after == 2 && at == len(data) {
		after = 1
	}
	if after != 2 { // (what follows an object is a reason to refuse it)
		data = append(append([]byte{}, data...), "padding"...)
	}
	r := &planReader{data: data, once: after > 0, next: func(avail int) (int, error) {
		if left == 0 {
			if failed++; failed > 1 {
				switch after {
				case 1:
					return 0, io.EOF
				case 2:
					return avail, nil
				}
			}
			return 0, e
		}
		n := min(avail, left)
		left -= n
		if with && left == 0 {
			return n, e
		}
		return n, nil
	}}
	n, err := decodeBy(entry, o.Typ(), r)
	x.Outcome("%s", entry)
	if err == nil {
		return fmt.Errorf("%s: the reader fails with %q after %d bytes of a %s (then: %d), and decoding does not", entry, e, at, o.Typ(), after)
	}
	if n != nil && entry != "Decode" && entry != "Decode repr" {
		return fmt.Errorf("%s: an object comes with the error %v", entry, err)
	}
	if errors.Is(err, endless{}) {
		return err
	}
	return nil
}

func writeFault(x *X, o Object, impl int, plan func() func(int) (int, error), certain bool) error {
	in := Wire(o)
	x.Input(in)
	n, err := git.ParseObject(bytes.NewReader(in))
	if err != nil {
		return err
	}
	if impl == 1 {
		n = genericCopy(n)
	}
	w := &planWriter{next: plan()}
	x.State("plan", len(in), impl, fmt.Sprint(x.choices()))
	err = git.Encode(n, w)
	failed := w.dead
	x.Outcome("writer failed: %v", failed)
	if certain && !failed {
		return fmt.Errorf("only %d of %d bytes were written, and the writer accepted them all", len(w.got), len(in))
	}
	if failed && err == nil {
		return fmt.Errorf("the writer failed after %d of %d bytes, and encoding did not", len(w.got), len(in))
	}
	if !bytes.HasPrefix(in, w.got) {
		return fmt.Errorf("what was written is not the beginning of the object: %s", diffAt(w.got, in))
	}
	if !failed && (err != nil || len(w.got) != len(in)) {
		return fmt.Errorf("the writer did not fail; error %v, %d of %d bytes", err, len(w.got), len(in))
	}
	// the node is as good as before
	again, err := encode(n)
	if err != nil || !bytes.Equal(again, in) {
		return fmt.Errorf("after a failed write the node encodes differently: %v %s", err, diffAt(again, in))
	}
	return nil
}

func genericCopy(n ipld.Node) ipld.Node {
	return genericOf(n)
}
