package main

import (
	"fmt"
	"syscall"
	"time"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
)

// The budget of one call, for n bytes that arrive: statements of the package that it
// executes, and processor time, which also sees what is done outside the package.
const (
	stepsPerByte = 200
	stepsFree    = 100000
	timePerByte  = 10 * time.Microsecond
	timeFree     = 5 * time.Second
)

// stepsOf counts the statements of the package that f executes; only the build
// with instrumented sources can.
var stepsOf = func(f func()) int64 { f(); return 0 }

func cpuTime() time.Duration {
	var r syscall.Rusage
	must(syscall.Getrusage(syscall.RUSAGE_SELF, &r))
	return time.Duration(r.Utime.Nano())
}

// promptly checks what one call costs.
func promptly(x *X, what string, size int, f func()) error {
	t := cpuTime()
	s := stepsOf(f)
	t = cpuTime() - t
	x.State(what, size)
	if limit := int64(stepsPerByte*size + stepsFree); s > limit {
		return fmt.Errorf("%s: %d statements are executed for %d bytes (%.1f per byte)", what, s, size, float64(s)/float64(size))
	}
	if limit := timePerByte*time.Duration(size) + timeFree; t > limit {
		return fmt.Errorf("%s: %v of processor time for %d bytes", what, t, size)
	}
	if size >= 1<<16 {
		lvl := 0
		for _, l := range []int{1, 2, 5, 10, 20, 50} {
			if int(s)/size >= l {
				lvl = l
			}
		}
		x.Outcome("at least %d statements per byte", lvl)
	}
	return nil
}

// costs checks the decoding of an input, and if it is accepted the encoding of the node.
func costs(x *X, what string, in []byte, typ string, ep entryPoint, forms int) error {
	var n ipld.Node
	var err error
	x.Input(in[:min(len(in), 4096)])
	if e := promptly(x, what+": "+ep.name, len(in), func() { n, err = ep.run(in, typ) }); e != nil || err != nil {
		return e
	}
	for impl := 0; impl < forms; impl++ {
		m := asImpl(n, impl)
		if e := promptly(x, fmt.Sprintf("%s: Encode (form %d)", what, impl), len(in), func() { git.Encode(m, &countWriter{}) }); e != nil {
			return e
		}
	}
	return nil
}

func init() {
	register(&Property{ID: "C24",
		Bounds: map[string]any{"families": len(families), "sizes": "1 KiB, 128 KiB, 2 MiB (thorough: also 16 MiB)", "budget": fmt.Sprintf("%d statements of the package per byte plus %d, and %v of processor time per byte plus %v", stepsPerByte, stepsFree, timePerByte, timeFree)},
		Assume: []string{"the budget is many times what the code uses today, so that only another order of growth exceeds it"},
		Scenarios: []*Scenario{
			{Name: "growth", Serial: true, Desc: "every way for an object to grow, complete, cut short and spoilt at the end", Run: func(x *X) error {
				f := families[x.All(len(families))]
				n := x.AllInt(pick([]int{1 << 10, 1 << 17, 1 << 21}, []int{1 << 10, 1 << 17, 1 << 21, 1 << 24}))
				body := f.body(n)
				in := wire(f.typ, body)
				what := f.name + " of a " + f.typ
				forms := 4
				switch x.All(3) {
				case 1:
					in = in[:len(in)-2]
					what += ", cut short"
				case 2:
					in = wire(f.typ, append(body, "\nparent \ntagger \n"...))
					what += ", spoilt"
					forms = 0
				}
				return costs(x, what, in, f.typ, entryPoints[0], forms)
			}},
			{Name: "entries", Serial: true, Desc: "every family through every entry point", Run: func(x *X) error {
				f := families[x.All(len(families))]
				ep := entryPoints[x.All(len(entryPoints))]
				return costs(x, f.name+" of a "+f.typ, wire(f.typ, f.body(pick(1<<17, 1<<20))), f.typ, ep, 0)
			}},
			{Name: "slow", Serial: true, Desc: "every family a few bytes at a time", Run: func(x *X) error {
				f := families[x.All(len(families))]
				in := wire(f.typ, f.body(1<<18))
				k := x.AllInt([]int{1, 100})
				return costs(x, fmt.Sprintf("%s of a %s, %d bytes at a time", f.name, f.typ, k), in, f.typ, slowly(k), 0)
			}},
		}})
}
