package main

// The source dictionary: string and integer constants that stand in the code under
// test become further elements of the alphabets, so that a value the code treats
// specially is among those that are enumerated. It only ever adds values; what a
// value must do is decided by the reference model alone.

import (
	"encoding/hex"
	"go/ast"
	cst "go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var litStrings, litInts = loadDict()

const maxLits = 120

func repoDir() string {
	if d := os.Getenv("MC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadDict() ([]string, []int) {
	files, _ := filepath.Glob(filepath.Join(repoDir(), "*.go"))
	sort.Strings(files)
	strs, ints := map[string]bool{}, map[int]bool{}
	fset := token.NewFileSet()
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CallExpr:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf" || s.Sel.Name == "New" && len(n.Args) == 1) {
					return false // the text of an error
				}
			case *ast.CompositeLit:
				// bytes one by one
				if s := bytesOf(n); len(s) > 1 {
					strs[s] = true
				}
			case ast.Expr:
				v := constOf(n)
				switch v.Kind() {
				case cst.String:
					if s := cst.StringVal(v); s != "" && len(s) < 5000 && !strings.HasPrefix(s, "ipldgit.") {
						strs[s] = true
						strs[strings.TrimSpace(s)] = true
					}
					return false
				case cst.Int:
					if i, ok := cst.Int64Val(v); ok && i > 1 && i <= 1<<22 {
						ints[int(i)] = true
					}
				}
			}
			return true
		})
	}
	delete(strs, "")
	var ss []string
	for s := range strs {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	var is []int
	for i := range ints {
		is = append(is, i)
	}
	sort.Ints(is)
	if len(ss) > maxLits {
		ss = ss[:maxLits]
	}
	if len(is) > maxLits {
		is = is[:maxLits]
	}
	return ss, is
}

// bytesOf is the text that a list of constant bytes spells.
func bytesOf(l *ast.CompositeLit) string {
	var b []byte
	for _, e := range l.Elts {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			e = kv.Value
		}
		v := cst.MakeUnknown()
		if lit, ok := e.(*ast.BasicLit); ok {
			v = cst.ToInt(cst.MakeFromLiteral(lit.Value, lit.Kind, 0))
		}
		i, ok := cst.Int64Val(v)
		if v.Kind() != cst.Int || !ok || i < 0 || i > 255 {
			return ""
		}
		b = append(b, byte(i))
	}
	return string(b)
}

// wellKnownIDs are ids that code might treat in a way of its own: those of the empty
// tree and blob, of nothing, and what constants of the code give.
func wellKnownIDs() []string {
	ids := []string{raw("4b825dc642cb6eb9a060e54bf8d69288fbee4904"), raw("e69de29bb2d1d6434b8b29ae775ad8c2e48c5391"), raw(rep("0", 40)), raw(rep("f", 40)), raw("da39a3ee5e6b4b0d3255bfef95601890afd80709"), raw(rep("0", 39) + "1"), raw(rep("20", 20)), raw(rep("0a", 20)), raw(rep("deadbeef", 5))}
	for _, s := range litStrings {
		for _, s := range []string{s, hexText(s)} {
			if n := len(s); n > 1 && n <= 20 {
				ids = append(ids, s+strings.Repeat("\x5a", 20-n), strings.Repeat("\x5a", 20-n)+s)
			}
		}
	}
	return ids
}

func hexText(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil {
		return ""
	}
	return string(b)
}

// constOf is the value of a constant expression made of literals, or unknown.
func constOf(e ast.Expr) (v cst.Value) {
	defer func() {
		if recover() != nil {
			v = cst.MakeUnknown()
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		if e.Kind == token.CHAR {
			return cst.MakeUnknown() // every byte value is enumerated anyway
		}
		return cst.MakeFromLiteral(e.Value, e.Kind, 0)
	case *ast.ParenExpr:
		return constOf(e.X)
	case *ast.BinaryExpr:
		a, b := constOf(e.X), constOf(e.Y)
		if a.Kind() == cst.Unknown || b.Kind() == cst.Unknown {
			return cst.MakeUnknown()
		}
		switch e.Op {
		case token.SHL, token.SHR:
			s, _ := cst.Uint64Val(b)
			if s > 64 {
				return cst.MakeUnknown()
			}
			return cst.Shift(a, e.Op, uint(s))
		case token.ADD, token.SUB, token.MUL:
			return cst.BinaryOp(a, e.Op, b)
		}
	}
	return cst.MakeUnknown()
}

// around adds the integer constants of the code, and their neighbours, up to max.
func around(base []int, max int) []int {
	seen := map[int]bool{}
	for _, i := range base {
		seen[i] = true
	}
	out := append([]int{}, base...)
	for _, i := range litInts {
		for _, k := range []int{i - 1, i, i + 1} {
			if k <= max && !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	return out
}

// literal is a constant of the code, alone or inside other text.
func literal(x *X) string {
	return x.AllStr([]string{"", "x", " ", "<"}) + x.AllStr(litStrings) + x.AllStr([]string{"", "x", " ", hexA})
}

// literalPair is one constant after another.
func literalPair(x *X) string {
	return x.AllStr(litStrings) + x.AllStr([]string{"", " ", "\n"}) + x.AllStr(litStrings)
}

// docLines are lines that mean something, somewhere, in what git and its users write.
var docLines = []string{"x", "", " x", "-----BEGIN PGP SIGNATURE-----", "-----END PGP SIGNATURE-----", "-----BEGIN SSH SIGNATURE-----", "-----END SSH SIGNATURE-----", "-----BEGIN SIGNED MESSAGE-----", "-----BEGIN PGP MESSAGE-----",
	"Signed-off-by: A U Thor <a@b.c>", "Change-Id: I0123456789", "# comment", "---", "x\r", "\t", "tree " + hexA, "object " + hexA, "gpgsig x", "tagger a <b> 1 +0000", "type commit", "tag v", "diff --git a/x b/x", "é\xff"}

// document is a text of lines, with or without a newline at the end.
func document(x *X, max int) string {
	n := x.All(max + 1)
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, x.AllStr(docLines))
	}
	s := strings.Join(ls, "\n")
	if x.All(2) == 1 {
		s += "\n"
	}
	return s
}

// totals are lengths of whole objects, or of their bodies, at which a loop over parts
// of a fixed size ends in an unusual way: multiples of powers of two and of the
// constants of the code.
func total(x *X) int {
	n := x.AllInt(around([]int{100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536}, 1<<17))
	return n*(1+x.All(4)) + x.All(3) - 1
}

// padTo is how much filling makes the length equal to t, or -1.
func padTo(t int, length func(pad int) int) int {
	k := t - length(0)
	for i := 0; i < 12 && k >= 0; i++ {
		if l := length(k); l == t {
			return k
		} else {
			k += t - l
		}
	}
	return -1
}

// padded makes an object of that total length, or nil.
func padded(x *X, mk func(fill string) Object) Object {
	t := total(x)
	body := x.All(2) == 1
	k := padTo(t, func(pad int) int {
		o := mk(rep("p", pad))
		if body {
			return len(o.Body())
		}
		return len(Wire(o))
	})
	if k < 0 {
		return nil
	}
	return mk(rep("p", k))
}
