// Command instr prepares a copy of a package for controlled scheduling: it puts a
// scheduling point before every statement, and replaces package sync by one whose
// operations are under the scheduler's control. The copy is used through go build
// -overlay; nothing is written to the repository.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	at   int
	end  int
	text string
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	repo, out, module, shim := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	plain, steps := false, false
	if len(os.Args) > 5 {
		plain = true                  // leave channels alone
		steps = os.Args[5] == "steps" // and sync, too
	}
	replace := map[string]string{}
	files, err := filepath.Glob(filepath.Join(repo, "*.go"))
	die(err)
	pkg := ""
	needID, spawns := false, false
	points := 0
	for _, name := range files {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, err := os.ReadFile(name)
		die(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		die(err)
		pkg = f.Name.Name
		var edits []edit
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "mcPoint(); "})
				points++
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.SwitchStmt:
				// the clauses of a switch are not statements that can be preceded
				for _, c := range n.Body.List {
					ast.Inspect(c, func(ast.Node) bool { return true })
				}
			case *ast.GoStmt:
				needID, spawns = true, true
			case *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
				needID = true
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					needID = true
				}
			}
			return true
		})
		// clauses stand in the block of their switch: take those back
		drop := map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch n := n.(type) {
			case *ast.SwitchStmt:
				b = n.Body
			case *ast.TypeSwitchStmt:
				b = n.Body
			case *ast.SelectStmt:
				b = n.Body
			}
			if b != nil {
				for _, c := range b.List {
					drop[off(c.Pos())] = true
				}
			}
			return true
		})
		keep := edits[:0]
		for _, e := range edits {
			if !drop[e.at] {
				keep = append(keep, e)
			} else {
				points--
			}
		}
		edits = keep
		if !plain && channels(f, off, &edits) {
			edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import mcchan \"" + module + "/mcsync\""})
		}
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` && !steps {
				t := `"` + module + `/mcsync"`
				if im.Name == nil {
					t = "sync " + t
				}
				edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), t})
			}
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
		text := string(src)
		for _, e := range edits {
			text = text[:e.at] + e.text + text[e.end:]
		}
		dst := filepath.Join(out, filepath.Base(name))
		die(os.WriteFile(dst, []byte(text), 0o644))
		replace[name] = dst
	}
	hook := fmt.Sprintf("package %s\n\n// MCPoint is called before every statement.\nvar MCPoint func()\n\nconst MCNeedID = %v\nconst MCSpawns = %v\nconst MCPoints = %d\n\nfunc mcPoint() {\n\tif f := MCPoint; f != nil {\n\t\tf()\n\t}\n}\n", pkg, needID, spawns, points)
	dst := filepath.Join(out, "zz_mcpoint.go")
	die(os.WriteFile(dst, []byte(hook), 0o644))
	replace[filepath.Join(repo, "zz_mcpoint.go")] = dst
	replace[filepath.Join(repo, "mcsync", "mcsync.go")] = shim
	b, err := json.Marshal(map[string]any{"Replace": replace})
	die(err)
	die(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

// channels puts what is sent, received and closed outside of select statements under
// control, and says whether there was anything.
func channels(f *ast.File, off func(token.Pos) int, edits *[]edit) bool {
	any := false
	put := func(from, to token.Pos, text string) {
		*edits = append(*edits, edit{off(from), off(to), text})
		any = true
	}
	comm := map[ast.Stmt]bool{}
	two := map[ast.Expr]bool{}
	skip := map[ast.Expr]bool{}
	arrow := func(e ast.Expr) *ast.UnaryExpr {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		u, _ := e.(*ast.UnaryExpr)
		if u == nil || u.Op != token.ARROW {
			return nil
		}
		return u
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CommClause:
			comm[n.Comm] = true
			switch c := n.Comm.(type) {
			case *ast.ExprStmt:
				skip[arrow(c.X)] = true
			case *ast.AssignStmt:
				skip[arrow(c.Rhs[0])] = true
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := arrow(n.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := arrow(n.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.SendStmt:
			if !comm[n] {
				put(n.Pos(), n.Pos(), "mcchan.Send(")
				put(n.Arrow, n.Arrow+2, ")(")
				put(n.End(), n.End(), ")")
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !skip[n] {
				name := "mcchan.Recv("
				if two[n] {
					name = "mcchan.Recv2("
				}
				put(n.OpPos, n.OpPos+2, name)
				put(n.End(), n.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(n.Args) == 1 {
				put(id.Pos(), id.End(), "mcchan.Close")
			}
		}
		return true
	})
	return any
}
