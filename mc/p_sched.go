//go:build mcsched

package main

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"time"

	git "github.com/ipfs/go-ipld-git"
	"github.com/ipfs/go-ipld-git/mcsync"
)

// A sched runs goroutines one at a time. At a scheduling point the running one
// goes on by default; letting another one run instead is a preemption, which the
// explorer counts as a deviation. Where the running one cannot go on, the choice
// among the others is free.
type sched struct {
	x       *X
	threads []*gor
	cur     int
	steps   int
	since   int // points since the last switch
	err     error
	abort   bool
	done    chan struct{}
	ticks   atomic.Int64
}

type gor struct {
	wake     chan struct{}
	finished bool
	cond     func() bool
	outside  bool // waits for something that the scheduler does not know
	id       int64
	at       int
	calm     bool
}

type aborted struct{}

var active atomic.Pointer[sched]

const (
	maxSteps = 3_000_000
	fairness = 30_000
)

func goid() int64 {
	var b [40]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	if i := bytes.IndexByte(s, ' '); i > 0 {
		n, _ := strconv.ParseInt(string(s[:i]), 10, 64)
		return n
	}
	return -1
}

func init() {
	git.MCPoint = func() {
		if s := active.Load(); s != nil {
			s.point()
		}
	}
	mcsync.Point = git.MCPoint
	mcsync.Block = func(cond func() bool) {
		if s := active.Load(); s != nil && s.mine() {
			s.block(cond)
		} else {
			time.Sleep(20 * time.Microsecond)
		}
	}
	controlled = runControlled
}

// mine says whether the calling goroutine is the one that is scheduled. Only if
// the code under test has goroutines or channels of its own can it be another.
func (s *sched) mine() bool {
	if !git.MCNeedID {
		return true
	}
	id := goid()
	if t := s.threads[s.cur]; t.id == id && !t.outside {
		return true
	}
	for i, t := range s.threads {
		if t.id == id && t.outside {
			// back from outside: wait for its turn
			t.outside = false
			_ = i
			<-t.wake
			if s.abort {
				panic(aborted{})
			}
			return true
		}
	}
	return false
}

func (s *sched) enabled(t *gor) bool {
	return !t.finished && !t.outside && (t.cond == nil || t.cond())
}

// others lists the goroutines that could run instead of the current one.
func (s *sched) others() []int {
	var out []int
	for k := 1; k < len(s.threads); k++ {
		i := (s.cur + k) % len(s.threads)
		if s.enabled(s.threads[i]) {
			out = append(out, i)
		}
	}
	return out
}

func (s *sched) point() {
	if !s.mine() {
		return
	}
	if s.abort {
		panic(aborted{})
	}
	s.ticks.Add(1)
	s.steps++
	s.since++
	s.threads[s.cur].at++
	if s.steps > maxSteps {
		s.fail(errors.New("the goroutines do not come to an end"))
		panic(aborted{})
	}
	if s.threads[s.cur].calm && s.since <= fairness {
		return
	}
	o := s.others()
	if len(o) == 0 {
		return
	}
	if s.since > fairness {
		s.to(o[0])
		return
	}
	if c := s.x.Choose(1 + len(o)); c > 0 {
		s.to(o[c-1])
	}
}

func (s *sched) fail(err error) {
	if s.err == nil {
		s.err = err
	}
	s.abort = true
}

// to lets goroutine i run and waits for the current one's turn.
func (s *sched) to(i int) {
	me := s.threads[s.cur]
	s.cur, s.since = i, 0
	s.threads[i].cond = nil
	s.threads[i].wake <- struct{}{}
	<-me.wake
	if s.abort {
		panic(aborted{})
	}
}

func (s *sched) block(cond func() bool) {
	me := s.threads[s.cur]
	me.cond = cond
	o := s.others()
	if len(o) == 0 {
		if cond() || s.patience(cond) {
			me.cond = nil
			return
		}
		s.fail(errors.New("deadlock: every goroutine waits for another"))
		panic(aborted{})
	}
	s.to(o[s.x.All(len(o))])
	me.cond = nil
}

const patience = 10 * time.Second

// patience waits for something that goroutines of the code under test, which run by
// themselves, or threads that wait outside may bring about.
func (s *sched) patience(cond func() bool) bool {
	free := git.MCSpawns
	for _, t := range s.threads {
		free = free || t.outside && !t.finished
	}
	for end := time.Now().Add(patience); free && time.Now().Before(end); time.Sleep(20 * time.Microsecond) {
		s.ticks.Add(1)
		if cond() {
			return true
		}
	}
	return false
}

// leave ends the current goroutine and lets another run.
func (s *sched) leave() {
	s.threads[s.cur].finished = true
	for {
		if s.abort {
			// let every other goroutine unwind, one after another
			for i, t := range s.threads {
				if !t.finished && !t.outside {
					s.cur = i
					t.wake <- struct{}{}
					return
				}
			}
			close(s.done)
			return
		}
		o := s.others()
		if len(o) > 0 {
			i := o[s.x.All(len(o))]
			s.cur, s.since = i, 0
			s.threads[i].cond = nil
			s.threads[i].wake <- struct{}{}
			return
		}
		all := true
		for _, t := range s.threads {
			all = all && t.finished
		}
		if all {
			close(s.done)
			return
		}
		if s.patience(func() bool { return len(s.others()) > 0 }) {
			continue
		}
		s.fail(errors.New("deadlock: the remaining goroutines wait for something that never happens"))
	}
}

func runControlled(x *X, sh *shared, programs [][]op) error {
	mcsync.Reset()
	s := &sched{x: x, done: make(chan struct{})}
	for i, p := range programs {
		t := &gor{wake: make(chan struct{}, 1), calm: i < len(sh.calm) && sh.calm[i]}
		s.threads = append(s.threads, t)
		ready := make(chan struct{})
		go func() {
			t.id = goid()
			close(ready)
			<-t.wake
			defer func() {
				if v := recover(); v != nil {
					if _, ok := v.(aborted); !ok {
						if d, ok := v.(divergence); ok {
							s.fail(fmt.Errorf("harness: %v", d.msg))
						} else {
							s.fail(fmt.Errorf("panic: %v\n%s", v, trimStack(debug.Stack())))
						}
					}
				}
				s.leave()
			}()
			if s.abort {
				return
			}
			for _, o := range p {
				if err := o.run(sh, s.point); err != nil {
					s.fail(fmt.Errorf("%s: %w", o.name, err))
					return
				}
			}
		}()
		<-ready
	}
	sh.wait = func(cond func() bool) error {
		for !cond() {
			s.block(cond)
		}
		return nil
	}
	active.Store(s)
	s.cur = x.All(len(s.threads))
	s.threads[s.cur].wake <- struct{}{}
	if git.MCNeedID {
		s.supervise()
	} else {
		<-s.done
	}
	active.Store(nil)
	x.w2State(s)
	if s.err != nil {
		return s.err
	}
	for i, n := range sh.nodes {
		if n == nil {
			continue
		}
		if err := expectNode(n, sh.objs[i]); err != nil {
			return fmt.Errorf("a shared node has changed: %w", err)
		}
		out, err := encode(n)
		if err != nil || !bytes.Equal(out, Wire(sh.objs[i])) {
			return fmt.Errorf("a shared node has another encoding: %v", err)
		}
	}
	return nil
}

func (x *X) w2State(s *sched) {
	x.Outcome("%d preemptions", x.devs)
	var at []int
	for i, p := range x.points {
		if p.choice != 0 {
			at = append(at, i, int(p.choice))
		}
	}
	x.State("schedule", fmt.Sprint(at))
}

// supervise lets another goroutine run when the current one waits for something
// that is not under control, such as a channel.
func (s *sched) supervise() {
	last, idle, since := int64(-1), 0, time.Now()
	for {
		select {
		case <-s.done:
			return
		case <-time.After(20 * time.Millisecond):
		}
		if t := s.ticks.Load(); t != last {
			last, idle, since = t, 0, time.Now()
			continue
		}
		idle++
		if idle < 3 {
			continue
		}
		idle = 0
		me := s.threads[s.cur]
		if me.finished {
			continue
		}
		me.outside = true
		if o := s.others(); len(o) > 0 {
			s.cur, s.since = o[0], 0
			s.threads[o[0]].cond = nil
			s.threads[o[0]].wake <- struct{}{}
		} else if time.Since(since) > patience {
			s.fail(errors.New("deadlock: the goroutines wait for something that never happens"))
			return
		}
	}
}
