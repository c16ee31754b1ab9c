package main

import (
	"fmt"
	"hash/fnv"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// An X is one execution: a path through the choice tree of a scenario. The
// scenario asks Choose/All for every decision, the explorer replays a prefix of
// answers and takes answer 0 from there on.
type X struct {
	sc       *Scenario
	prefix   []uint32
	points   []point
	devs     int
	replay   bool
	w        *worker
	outcome  string
	input    []byte
	diverged bool
	skipped  bool // stands for another execution, and is not counted
}

type point struct {
	n      uint32 // number of answers
	choice uint32
	free   bool // a departure from answer 0 costs nothing
	before int  // deviations spent before this point
}

// A Scenario is a closed system: every execution of it is a function of the
// choices alone.
type Scenario struct {
	Name     string
	Desc     string
	Bound    int // deviations in the quick tier
	Thorough int // deviations in the thorough tier
	Only     string
	Serial   bool // one execution at a time (measures process-wide quantities)
	Race     bool // runs in the checker that is built with the race detector
	Split    bool // the first deviation says which share an execution belongs to
	Run      func(x *X) error
}

type divergence struct{ msg string }

func (x *X) at(n int, free bool) int {
	if n <= 0 {
		panic(divergence{fmt.Sprintf("choice among %d", n)})
	}
	i := len(x.points)
	c := uint32(0)
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= uint32(n) {
			// the code under test did not do the same again: go on from here
			x.diverged = true
			c = 0
		}
	}
	x.points = append(x.points, point{uint32(n), c, free, x.devs})
	if c != 0 && !free {
		x.devs++
	}
	return int(c)
}

// Choose picks one of n answers; any but the first is a deviation.
func (x *X) Choose(n int) int { return x.at(n, false) }

// All picks one of n answers; all of them are explored whatever the bound.
func (x *X) All(n int) int { return x.at(n, true) }

// Str picks a string; any but the first is a deviation.
func (x *X) Str(s []string) string { return s[x.Choose(len(s))] }

// AllStr picks a string, all of them whatever the bound.
func (x *X) AllStr(s []string) string { return s[x.All(len(s))] }

// Int picks an int; any but the first is a deviation.
func (x *X) Int(s []int) int { return s[x.Choose(len(s))] }

// AllInt picks an int, all of them whatever the bound.
func (x *X) AllInt(s []int) int { return s[x.All(len(s))] }

// Bool picks false (default) or true.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// State records a state that the execution passed through, by content.
func (x *X) State(parts ...any) {
	if x.w != nil {
		x.w.e.addState(parts...)
	}
}

// Input remembers the object under test, for the replay file.
func (x *X) Input(b []byte) {
	x.input = b
	x.State("in", b)
}

// Outcome classifies how the execution ended, for the counts in the evidence.
func (x *X) Outcome(format string, a ...any) { x.outcome = fmt.Sprintf(format, a...) }

func (x *X) choices() []uint32 {
	out := make([]uint32, len(x.points))
	for i, p := range x.points {
		out[i] = p.choice
	}
	return out
}

type failure struct {
	scenario string
	choices  []uint32
	input    []byte
	msg      string
}

type worker struct {
	e     *explorer
	id    int
	start atomic.Int64 // when the current execution began, 0 if none
	slot  []byte       // shared with the parent process: the current prefix
}

type explorer struct {
	sc       *Scenario
	bound    int
	deadline time.Time

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []item
	busy    int
	level   int
	stop    bool
	fail    *failure
	capped  bool
	workers []*worker
	done    atomic.Bool
	hung    func(w *worker)

	execs, transitions, diverged atomic.Int64
	byLevel                      []int64
	states                       [256]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	omu      sync.Mutex
	outcomes map[string]int64
	samples  []string
	maxPts   int
}

type item struct {
	prefix []uint32
	cost   int
}

var hseed = maphash.MakeSeed()

func (e *explorer) addState(parts ...any) {
	var h maphash.Hash
	h.SetSeed(hseed)
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.WriteString(v)
		default:
			fmt.Fprint(&h, v)
		}
		h.WriteByte(0xff)
	}
	s := h.Sum64()
	b := &e.states[s&255]
	b.Lock()
	if b.m == nil {
		b.m = map[uint64]struct{}{}
	}
	b.m[s] = struct{}{}
	b.Unlock()
}

func (e *explorer) stateCount() int64 {
	n := int64(0)
	for i := range e.states {
		n += int64(len(e.states[i].m))
	}
	return n
}

// runOne performs one execution and turns a panic of the code under test into a
// failure of the property.
func runOne(sc *Scenario, prefix []uint32, w *worker) (x *X, err error) {
	x = &X{sc: sc, prefix: prefix, w: w}
	defer func() {
		if r := recover(); r != nil {
			if d, ok := r.(divergence); ok {
				panic(d)
			}
			if ex, ok := r.(harnessError); ok {
				panic(ex)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	err = sc.Run(x)
	if len(x.points) < len(prefix) {
		x.diverged = true
	}
	return x, err
}

type harnessError struct{ error }

// must is for errors of the harness itself, which are never a verdict.
func must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i+1 < len(lines) && len(out) < 24; i++ {
		if strings.Contains(lines[i], "go-ipld") && !strings.HasPrefix(lines[i], "\t") {
			out = append(out, lines[i]+" "+strings.TrimSpace(lines[i+1]))
		}
	}
	return strings.Join(out, "\n")
}

// explore runs every execution with at most bound deviations, by increasing
// number of deviations.
func (e *explorer) explore(par int) {
	if e.sc.Serial {
		par = 1
	}
	e.cond = sync.NewCond(&e.mu)
	e.outcomes = map[string]int64{}
	for i := 0; i < par; i++ {
		w := &worker{e: e, id: i}
		if slotMem != nil {
			w.slot = slotMem[i*slotSize : (i+1)*slotSize]
		}
		e.workers = append(e.workers, w)
	}
	if e.hung != nil {
		go e.watch()
	}
	defer e.done.Store(true)
	for e.level = 0; e.level <= e.bound; e.level++ {
		e.byLevel = append(e.byLevel, 0)
		e.stack = []item{{nil, 0}}
		var wg sync.WaitGroup
		for i := 0; i < par; i++ {
			wg.Add(1)
			go func(w *worker) {
				defer wg.Done()
				w.loop()
			}(e.workers[i])
		}
		wg.Wait()
		if e.stop {
			break
		}
		if e.byLevel[e.level] == 0 {
			e.byLevel = e.byLevel[:e.level]
			break // nothing has that many deviations
		}
	}
}

func (w *worker) loop() {
	e := w.e
	for {
		e.mu.Lock()
		for len(e.stack) == 0 && e.busy > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.stack) == 0 {
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		it := e.stack[len(e.stack)-1]
		e.stack = e.stack[:len(e.stack)-1]
		e.busy++
		e.mu.Unlock()

		w.dfs(it)

		e.mu.Lock()
		e.busy--
		e.cond.Broadcast()
		e.mu.Unlock()
	}
}

func (w *worker) dfs(it item) {
	e := w.e
	local := []item{it}
	for len(local) > 0 {
		it := local[len(local)-1]
		local = local[:len(local)-1]
		if time.Now().After(e.deadline) {
			e.mu.Lock()
			e.capped, e.stop = true, true
			e.mu.Unlock()
		}
		e.mu.Lock()
		stop := e.stop
		hungry := len(e.stack) == 0
		if hungry && len(local) > 1 {
			// hand the oldest half to the others
			h := len(local) / 2
			e.stack = append(e.stack, local[:h]...)
			local = append([]item{}, local[h:]...)
			e.cond.Broadcast()
		}
		e.mu.Unlock()
		if stop {
			return
		}

		w.publish(it.prefix)
		w.start.Store(time.Now().UnixNano())
		x, err := runOne(e.sc, it.prefix, w)
		w.start.Store(0)
		w.publish(nil)

		if x.devs == e.level {
			e.account(x, it)
			if err != nil {
				e.report(x, err)
				return
			}
		} else if err != nil {
			// it held before with the same choices: the code under test
			// remembers something from one call to another
			e.report(x, fmt.Errorf("held before with the same choices, fails now: %w", err))
			return
		}

		for i := len(x.points) - 1; i >= len(it.prefix); i-- {
			p := x.points[i]
			cost := p.before
			if !p.free {
				cost++
			}
			if cost > e.level {
				continue
			}
			for alt := p.n - 1; alt >= 1; alt-- {
				pre := make([]uint32, i+1)
				for j := 0; j < i; j++ {
					pre[j] = x.points[j].choice
				}
				pre[i] = alt
				if e.sc.Split && cost == 1 && p.before == 0 && !inShare(pre) {
					continue
				}
				local = append(local, item{pre, cost})
			}
		}
	}
}

// inShare divides choices among the processes.
func inShare(cs []uint32) bool {
	h := fnv.New32a()
	for _, c := range cs {
		h.Write([]byte{byte(c), byte(c >> 8)})
	}
	k := h.Sum32()
	return int((k^k>>15)%uint32(shardN)) == shardI
}

func (e *explorer) account(x *X, it item) {
	if e.sc.Split && x.devs == 0 && !inShare(x.choices()) {
		x.skipped = true // another process counts it
	}
	if !x.skipped {
		e.execs.Add(1)
	}
	if x.diverged {
		e.diverged.Add(1)
	}
	n := max(0, len(x.points)-len(it.prefix))
	if len(it.prefix) > 0 {
		n++
	}
	e.transitions.Add(int64(n))
	e.omu.Lock()
	e.byLevel[e.level]++
	if len(x.points) > e.maxPts {
		e.maxPts = len(x.points)
	}
	if x.outcome != "" {
		e.outcomes[x.outcome]++
	}
	if len(e.samples) < 3 || (len(e.samples) < 6 && e.byLevel[e.level]%977 == 0) {
		s := fmt.Sprintf("%s choices=%v outcome=%q", e.sc.Name, x.choices(), x.outcome)
		if x.input != nil {
			s += fmt.Sprintf(" input=%.200q", x.input)
		}
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		e.samples = append(e.samples, s)
	}
	e.omu.Unlock()
}

func (e *explorer) report(x *X, err error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.fail == nil {
		e.fail = &failure{e.sc.Name, x.choices(), x.input, err.Error()}
	}
	e.stop = true
	e.cond.Broadcast()
}

// Crash recovery: every worker publishes the prefix it is running in memory that
// it shares with the parent process, so that an execution which takes the whole
// process down (stack exhaustion, out of memory, concurrent map access) can be
// named, run again and reported.

const hangLimit = 60 * time.Second

const (
	slotSize = 8192
	maxSlots = 64
)

var slotMem []byte

func openSlots(path string) {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	must(err)
	slotMem, err = syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	f.Close()
}

func (w *worker) publish(prefix []uint32) {
	if w.slot == nil {
		return
	}
	u := unsafe.Slice((*uint32)(unsafe.Pointer(&w.slot[0])), slotSize/4)
	if prefix == nil && u[0] != 0 {
		u[0] = 0
		return
	}
	n := len(prefix)
	if n > len(u)-2 {
		n = len(u) - 2
	}
	copy(u[2:], prefix[:n])
	u[1] = uint32(n)
	u[0] = 1
}

func readSlots(b []byte) [][]uint32 {
	var out [][]uint32
	for i := 0; i < maxSlots; i++ {
		u := unsafe.Slice((*uint32)(unsafe.Pointer(&b[i*slotSize])), slotSize/4)
		if u[0] == 1 && int(u[1]) <= len(u)-2 {
			out = append(out, append([]uint32{}, u[2:2+u[1]]...))
		}
	}
	return out
}

// watch ends the process when one execution takes absurdly long.
func (e *explorer) watch() {
	for !e.done.Load() {
		time.Sleep(time.Second)
		now := time.Now().UnixNano()
		for _, w := range e.workers {
			if s := w.start.Load(); s != 0 && now-s > int64(hangLimit) {
				e.hung(w)
			}
		}
	}
}

func sortedKeys(m map[string]int64) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func ncpu() int {
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	return n
}
