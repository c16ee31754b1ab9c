//go:build mcsteps

package main

import (
	"sync/atomic"

	git "github.com/ipfs/go-ipld-git"
)

var stepCount atomic.Int64

func init() {
	git.MCPoint = func() { stepCount.Add(1) }
	stepsOf = func(f func()) int64 {
		a := stepCount.Load()
		f()
		return stepCount.Load() - a
	}
}
