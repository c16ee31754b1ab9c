package main

import (
	"errors"
	"io"
)

// Environment seams: a reader and a writer whose every answer is a choice.

var errInjected = errors.New("injected failure")

// endless is panicked by a reader that is still read after it said it was done,
// far more often than any decoder needs to.
type endless struct{}

func (endless) Error() string { return "the reader is read without end after its end" }

// planReader hands out data as a plan says.
type planReader struct {
	data    []byte
	next    func(avail int) (n int, err error) // how much of what is left to give, and an error to give with it
	endErr  error                              // after all data (io.EOF if nil)
	withEnd bool                               // give the end along with the last bytes
	after   int
	reads   int
	ended   bool
	once    bool // an error is not repeated
}

func (r *planReader) Read(p []byte) (int, error) {
	r.reads++
	end := r.endErr
	if end == nil {
		end = io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.ended || len(r.data) == 0 {
		r.ended = true
		r.after++
		if r.after > 10000 {
			panic(endless{})
		}
		return 0, end
	}
	avail := min(len(p), len(r.data))
	n, err := avail, error(nil)
	if r.next != nil {
		n, err = r.next(avail)
	}
	n = min(n, avail)
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if err != nil {
		if !r.once {
			r.ended = true
			r.endErr = err
		}
		return n, err
	}
	if len(r.data) == 0 && r.withEnd {
		r.ended = true
		return n, end
	}
	return n, nil
}

// planWriter accepts data as a plan says.
type planWriter struct {
	got   []byte
	next  func(n int) (int, error)
	calls int
	extra int // bytes offered after a failure
	dead  bool
}

func (w *planWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.dead {
		w.extra += len(p)
	}
	n, err := len(p), error(nil)
	if w.next != nil {
		n, err = w.next(len(p))
	}
	w.got = append(w.got, p[:n]...)
	if err != nil {
		w.dead = true
	}
	return n, err
}
