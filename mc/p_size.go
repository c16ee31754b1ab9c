package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
)

// sizeTexts are declared sizes other than n.
func sizeTexts(n int) []string {
	var out []string
	add := func(v int64) { out = append(out, strconv.FormatInt(v, 10)) }
	for _, d := range []int64{1, 2, 3, 10, 19, 20, 21, 30, 100, 4096} {
		add(int64(n) + d)
		add(int64(n) - d)
	}
	s := strconv.Itoa(n)
	add(int64(n) * 10)
	add(int64(n) + 1<<31)
	add(int64(n) + 1<<32)
	add(int64(n) + 1<<62)
	add(0)
	add(1)
	add(-1)
	add(9223372036854775807)
	add(-9223372036854775808)
	out = append(out, "18446744073709551615", "18446744073709551616", "9223372036854775808", "-"+s, "+"+s, "0"+s, "00"+s, s+" ", " "+s, s+"\n", s+"\r", "0x"+strconv.FormatInt(int64(n), 16),
		s+".0", s+"e0", s+"_", strings.Join(strings.Split(s, ""), "_"), "", "a", s+"a", "-0", "+0", "--1", rep("9", 30), s+"\t", "\xd9\xa1", s+",", "0b1", "1e1")
	// as many bytes as git's 64-bit size wraps to
	out = append(out, new64(n))
	return out
}

// new64 is n + 2^64 in decimal.
func new64(n int) string {
	base := []byte("18446744073709551616")
	add := []byte(strconv.Itoa(n))
	carry := 0
	for i := 0; i < len(base); i++ {
		d := int(base[len(base)-1-i]-'0') + carry
		if i < len(add) {
			d += int(add[len(add)-1-i] - '0')
		}
		base[len(base)-1-i] = byte('0' + d%10)
		carry = d / 10
	}
	return string(base)
}

// refuse: every entry point must reject this input.
func refuse(x *X, in []byte, typ string, ep entryPoint, what string) error {
	x.Input(in)
	n, err := ep.run(in, typ)
	x.Outcome("%s, rejected", what)
	if err == nil {
		d, _ := dump(n, typ == "tree")
		return fmt.Errorf("%s of a %s is accepted by %s as %s", what, typ, ep.name, clip(d))
	}
	return nil
}

var extensions = []string{"\x00", "\n", " ", "a", "\r\n", "\n\n", "100644 zz\x00" + shas[0], "100644 q", "blob 0\x00", "tree 0\x00", "x y <z> 1 +0\n", rep("z", 5000), rep("\n", 4096), rep("\x00", 20)}

func init() {
	register(&Property{ID: "C10",
		Bounds: map[string]any{"objects": len(ioObjects()), "prefixes": "every proper prefix of every object; long objects too", "extensions": len(extensions), "sizes": len(sizeTexts(5)), "encoded bodies": "every body length from the shortest possible to 1100, and around powers of ten and two", "entry points": len(entryPoints)},
		Scenarios: []*Scenario{
			{Name: "intact", Desc: "the objects themselves are accepted everywhere", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				ep := entryPoints[x.All(len(entryPoints))]
				x.Input(Wire(o))
				n, err := ep.run(Wire(o), o.Typ())
				if err != nil {
					return fmt.Errorf("a well-formed %s is rejected by %s: %v", o.Typ(), ep.name, err)
				}
				return expectNode(n, o)
			}},
			{Name: "prefixes", Desc: "every proper prefix, at every entry point", Run: func(x *X) error {
				o := fixedSeeds[x.All(len(fixedSeeds))]
				ep := entryPoints[x.All(len(entryPoints))]
				in := Wire(o)
				return refuse(x, in[:x.All(len(in))], o.Typ(), epIfTyped(ep, in), "a prefix")
			}},
			{Name: "long-prefixes", Desc: "every proper prefix of objects longer than the buffers in use", Run: func(x *X) error {
				o := fixedLong[x.All(len(fixedLong))]
				eps := pick(entryPoints[:1], entryPoints)
				ep := eps[x.All(len(eps))]
				in := Wire(o)
				return refuse(x, in[:x.All(len(in))], o.Typ(), epIfTyped(ep, in), "a prefix")
			}},
			{Name: "extensions", Desc: "every object with more bytes after it, at every entry point", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				ep := entryPoints[x.All(len(entryPoints))]
				in := append(append([]byte{}, Wire(o)...), x.AllStr(extensions)...)
				return refuse(x, in, o.Typ(), ep, "an extension")
			}},
			{Name: "one-more-byte", Desc: "every byte value after an object", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				in := append(append([]byte{}, Wire(o)...), byte(x.All(256)))
				return refuse(x, in, o.Typ(), entryPoints[x.All(3)], "an extension")
			}},
			{Name: "sizes", Desc: "every other way to declare a size, at every entry point", Run: func(x *X) error {
				os := ioObjects()
				o := os[x.All(len(os))]
				ep := entryPoints[x.All(len(entryPoints))]
				body := o.Body()
				s := x.AllStr(sizeTexts(len(body)))
				if s == strconv.Itoa(len(body)) {
					x.Outcome("the right size")
					return nil
				}
				return refuse(x, append([]byte(o.Typ()+" "+s+"\x00"), body...), o.Typ(), ep, "a wrong size")
			}},
			{Name: "near-sizes", Desc: "every size from 0 to 300 declared for small objects", Run: func(x *X) error {
				o := fixedSeeds[x.All(len(fixedSeeds))]
				body := o.Body()
				s := x.All(pick(301, 2000))
				if s == len(body) {
					x.Outcome("the right size")
					return nil
				}
				return refuse(x, append([]byte(fmt.Sprintf("%s %d\x00", o.Typ(), s)), body...), o.Typ(), entryPoints[x.All(len(entryPoints))], "a wrong size")
			}},
			{Name: "shifted", Desc: "bodies cut or grown at every place and by several lengths while the header keeps the old size", Run: func(x *X) error {
				o := fixedSeeds[x.All(len(fixedSeeds))]
				body := o.Body()
				i := x.All(len(body) + 1)
				k := x.AllInt([]int{1, 2, 20, 21, 27, 40, 48})
				var nb []byte
				if x.All(2) == 0 {
					if i+k > len(body) {
						x.Outcome("too short")
						return nil
					}
					nb = append(append(nb, body[:i]...), body[i+k:]...)
				} else {
					nb = append(append(append(nb, body[:i]...), bytes.Repeat([]byte{x.allByte("a \n\x00")}, k)...), body[i:]...)
				}
				in := append([]byte(fmt.Sprintf("%s %d\x00", o.Typ(), len(body))), nb...)
				return refuse(x, in, o.Typ(), entryPoints[x.All(2)], "a body of another size")
			}},
			{Name: "encoded", Desc: "the header written by Encode declares the length of what follows, for every body length", Run: func(x *X) error {
				typ := x.AllStr([]string{"blob", "tree", "commit", "commit without message", "tag", "tag without message"})
				n := x.All(1100)
				if k := x.All(2); k == 1 {
					n = lens[n%len(lens)]
				}
				o := sized(typ, n)
				impl := x.All(4)
				nd, err := git.ParseObjectFromBuffer(Wire(o))
				if err != nil {
					return fmt.Errorf("a well-formed %s is rejected: %v", o.Typ(), err)
				}
				nd = asImpl(nd, impl)
				out, err := encode(nd)
				x.Input(out)
				x.Outcome("%s, %d digits", o.Typ(), len(strconv.Itoa(len(o.Body()))))
				if err != nil {
					return fmt.Errorf("encoding fails: %v", err)
				}
				t, size, body, ok := splitHeader(out)
				if !ok || t != o.Typ() || size != strconv.Itoa(len(body)) {
					return fmt.Errorf("a body of %d bytes is written as type %q, size %q", len(body), t, size)
				}
				return nil
			}},
			{Name: "encoded-values", Desc: "the declared size counts bytes, whatever the values are: every value of every alphabet, every byte and every constant of the code in every field", Run: func(x *X) error {
				var s string
				switch x.All(3) {
				case 0:
					s = x.AllStr(encodedTexts)
				case 1:
					s, _ = byteAt(x, "ab")
				default:
					s = literal(x)
				}
				var o Object
				switch x.All(4) {
				case 0:
					c := setField(x, shape{2, 1, 1, true, true, true, true}.fill(&X{}), s, x.All(commitFields))
					if c == nil {
						x.Outcome("no such value")
						return nil
					}
					o = c
				case 1:
					t := &Tag{hexA, "commit", "v1.0", person1(), "m\n"}
					f := []*string{&t.Type, &t.Tag, &t.Tagger.Name, &t.Tagger.Email, &t.Tagger.Date, &t.Tagger.TZ, &t.Message}
					*f[x.All(len(f))] = s
					o = t
				case 2:
					o = Tree{{x.AllStr([]string{"100644", "40000"}), s, shas[0]}, {"160000", "other", shas[1]}}
				default:
					o = Tree{{s, "a", shas[0]}}
				}
				nd, err := git.ParseObjectFromBuffer(Wire(o))
				if err != nil {
					x.Outcome("not an object")
					return nil
				}
				return declares(x, asImpl(nd, x.All(4)))
			}},
			{Name: "interactions", Desc: "the declared size of objects with " + interactingDesc, Bound: 3, Thorough: 5, Run: func(x *X) error {
				nd, err := git.ParseObjectFromBuffer(Wire(interacting(x)))
				if err != nil {
					x.Outcome("not an object")
					return nil
				}
				return declares(x, asImpl(nd, x.All(4)))
			}},
			{Name: "encoded-shapes", Desc: "the declared size is right whatever parts an object has", Bound: 1, Thorough: 2, Run: func(x *X) error {
				s := shape{x.AllInt([]int{0, 1, 3}), x.All(3), x.All(3), x.All(2) == 1, x.All(2) == 1, x.All(2) == 1, x.All(2) == 1}
				o := s.fill(x)
				nd, err := git.ParseObjectFromBuffer(Wire(o))
				if err != nil {
					return fmt.Errorf("a well-formed commit is rejected: %v", err)
				}
				return declares(x, nd)
			}},
		}})
}

// encodedTexts are the values of all alphabets.
var encodedTexts = func() (out []string) {
	for _, l := range [][]string{names, emails, dates, zones, messages, encodings, otherLines, tagNames, tagTypes, entryNames, modes, docLines} {
		out = append(out, l...)
	}
	return out
}()

// declares: the size that stands in the header is that of the body.
func declares(x *X, n ipld.Node) error {
	out, err := encode(n)
	x.Input(out)
	if err != nil {
		return fmt.Errorf("encoding fails: %v", err)
	}
	typ, size, body, ok := splitHeader(out)
	x.Outcome("%s", typ)
	if !ok || size != strconv.Itoa(len(body)) {
		return fmt.Errorf("a body of %d bytes is written with size %q", len(body), size)
	}
	return nil
}

func (x *X) allByte(s string) byte { return s[x.All(len(s))] }

// epIfTyped: the decoders of a type begin after the type word, which a short
// prefix does not have.
func epIfTyped(ep entryPoint, in []byte) entryPoint {
	run := ep.run
	return entryPoint{ep.name, func(b []byte, typ string) (n interfaceNode, err error) {
		if strings.HasPrefix(ep.name, "decoder") && len(b) < len(typ)+1 {
			return entryPoints[0].run(b, typ)
		}
		return run(b, typ)
	}}
}

// sized is an object with one variable part of the given length.
func sized(typ string, n int) Object {
	p := person1()
	switch typ {
	case "blob":
		return Blob(rep("b", n))
	case "tree":
		return Tree{{"100644", rep("n", n), shas[1]}}
	case "commit":
		return &Commit{Tree: hexA, Author: p, Committer: p, Message: rep("m", n)}
	case "commit without message":
		return &Commit{Tree: hexA, Other: []string{"o" + rep("x", n)}, Message: ""}
	case "tag":
		return &Tag{hexA, "commit", "v", p, rep("m", n)}
	default:
		return &Tag{hexA, "commit", rep("t", n), nil, ""}
	}
}
