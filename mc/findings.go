package main

import (
	"bytes"
	"encoding/hex"
	"os"
	"sort"
	"strings"
	"sync"
)

// A finding is a genuine defect that is recorded rather than repaired: on exactly
// this input the code is known to produce exactly this result. Anything else is
// still a violation.
type finding struct {
	id, prop, what string
	input, got     []byte
}

var (
	findMu   sync.Mutex
	findHits = map[string]string{}
)

func loadFindings(path, prop string) { loadFindingsFor(path, prop) }

// The file has lines "known: property=C03 id=K1 input=HEX got=HEX what fails".
func loadFindingsFor(path, prop string) {
	known = nil
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	die(err)
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: ")
		if !ok {
			continue
		}
		f := finding{}
		words := strings.SplitN(rest, " ", 5)
		if len(words) != 5 {
			continue
		}
		for _, w := range words[:4] {
			k, v, _ := strings.Cut(w, "=")
			switch k {
			case "property":
				f.prop = v
			case "id":
				f.id = v
			case "input":
				f.input, err = hex.DecodeString(v)
				die(err)
			case "got":
				f.got, err = hex.DecodeString(v)
				die(err)
			}
		}
		f.what = words[4]
		if f.prop == prop {
			known = append(known, f)
		}
	}
}

// isKnown reports whether this input giving this result is a recorded finding,
// and notes that it was met.
func isKnown(input, got []byte) bool {
	for _, f := range known {
		if bytes.Equal(f.input, input) && bytes.Equal(f.got, got) {
			findMu.Lock()
			findHits[f.id] = f.id + ": " + f.what
			findMu.Unlock()
			return true
		}
	}
	return false
}

func knownHits() []string {
	findMu.Lock()
	defer findMu.Unlock()
	var out []string
	for _, v := range findHits {
		out = append(out, v)
	}
	sort.Strings(out)
	return out
}
