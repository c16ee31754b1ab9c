// mutate lists small changes of Go files and applies one of them. It is a tool for
// judging the checks, and no check uses it.
//
//	mutate FILE...            prints "n<TAB>file:line<TAB>what" for every mutant
//	mutate -apply N FILE...   prints the mutated file's name, and writes it
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	file     string
	from, to int // byte range
	text     string
	line     int
	what     string
}

func main() {
	apply := flag.Int("apply", -1, "")
	flag.Parse()
	var all []mutant
	for _, f := range flag.Args() {
		all = append(all, mutants(f)...)
	}
	if *apply < 0 {
		for i, m := range all {
			fmt.Printf("%d\t%s:%d\t%s\n", i, m.file, m.line, m.what)
		}
		return
	}
	m := all[*apply]
	src, _ := os.ReadFile(m.file)
	out := string(src[:m.from]) + m.text + string(src[m.to:])
	if err := os.WriteFile(m.file, []byte(out), 0o644); err != nil {
		panic(err)
	}
}

func mutants(file string) (out []mutant) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(from, to token.Pos, text, what string) {
		if text == string(src[off(from):off(to)]) {
			return
		}
		out = append(out, mutant{file, off(from), off(to), text, fset.Position(from).Line, what})
	}
	repl := func(n ast.Node, text string) {
		o := txt(n)
		if len(o) > 60 {
			o = o[:60] + "..."
		}
		add(n.Pos(), n.End(), text, fmt.Sprintf("%q -> %q", o, text))
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				repl(s, "")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					repl(s, "")
				} else if len(s.Lhs) == 1 {
					// keep the variable
				}
			case *ast.IfStmt:
				if s.Init == nil {
					repl(s.Cond, "!("+txt(s.Cond)+")")
					repl(s.Cond, "false && ("+txt(s.Cond)+")")
					repl(s.Cond, "true || ("+txt(s.Cond)+")")
				} else {
					repl(s.Cond, "false && ("+txt(s.Cond)+")")
				}
			case *ast.ReturnStmt:
				for _, r := range s.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "err") {
						repl(r, "nil")
					}
					if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						repl(r, map[string]string{"true": "false", "false": "true"}[id.Name])
					}
				}
			case *ast.BranchStmt:
				if s.Tok == token.CONTINUE && s.Label == nil {
					repl(s, "break")
				}
				if s.Tok == token.BREAK && s.Label == nil {
					repl(s, "")
				}
			}
		}
	}
	swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.Field:
			return false
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
			if len(n.Body) > 0 && n.List != nil {
				add(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "case "+txt(n.List[0])+": body removed")
			}
		case *ast.BinaryExpr:
			for _, t := range swap[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, fmt.Sprintf("%s: %s -> %s", txt(n), n.Op, t))
			}
		case *ast.CallExpr:
			if s, ok := n.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf" || s.Sel.Name == "New") {
				return false
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				if v, err := strconv.Atoi(n.Value); err == nil {
					repl(n, strconv.Itoa(v+1))
					if v > 0 {
						repl(n, strconv.Itoa(v-1))
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(n.Value); err == nil && s != "" {
					repl(n, strconv.Quote(s[:len(s)-1]))
					repl(n, strconv.Quote(s[1:]))
					repl(n, strconv.Quote(s+"x"))
				}
			case token.CHAR:
				repl(n, "'x'")
			}
		}
		return true
	})
	return out
}
