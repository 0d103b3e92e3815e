//go:build go1.22

// instr OUTDIR DIR...: for each package directory that uses the sync packages or channels, write
// copies of its files in which the scheduler of C23 is asked before every statement that uses them,
// and print the overlay entries of the copies.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const imp = `; import zzpoint "github.com/abema/go-mp4/internal/zzverif/point"`

var points = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Load Store CompareAndSwap CompareAndDelete Swap Add And Or LoadOrStore LoadAndDelete Delete Clear Range Get Put Lock RLock TryLock TryRLock Do Wait Done Signal Broadcast") {
		points[n] = true
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

// method is the name of the method or function called by a statement on its own.
func method(e ast.Expr) string {
	if c, ok := e.(*ast.CallExpr); ok {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok {
			return s.Sel.Name
		}
	}
	return ""
}

// uses tells whether a statement, apart from the statements inside it, uses synchronised data.
func uses(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			if f, ok := n.Fun.(*ast.SelectorExpr); ok {
				if id, ok := f.X.(*ast.Ident); ok && id.Name == "atomic" || points[f.Sel.Name] {
					found = true
				}
			}
		}
		return true
	})
	return found
}

type edit struct {
	at   int
	text string
}

func instrument(fset *token.FileSet, f *ast.File) (es []edit) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if uses(s) {
				es = append(es, edit{off(s.Pos()), "zzpoint.Point(); "})
			}
			switch s := s.(type) {
			case *ast.ExprStmt:
				switch method(s.X) {
				case "Lock", "RLock":
					es = append(es, edit{off(s.End()), "; zzpoint.Locked()"})
				case "Unlock", "RUnlock":
					es = append(es, edit{off(s.End()), "; zzpoint.Unlocked()"})
				case "Do":
					es = append(es, edit{off(s.Pos()), "zzpoint.Locked(); "}, edit{off(s.End()), "; zzpoint.Unlocked()"})
				}
			case *ast.DeferStmt:
				switch method(s.Call) {
				case "Unlock", "RUnlock":
					es = append(es, edit{off(s.End()), "; defer zzpoint.Unlocked()"})
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	return es
}

func main() {
	out := os.Args[1]
	for di, dir := range os.Args[2:] {
		names, err := filepath.Glob(filepath.Join(dir, "*.go"))
		die(err)
		fset := token.NewFileSet()
		files := map[string]*ast.File{}
		sync := false
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
			die(err)
			files[n] = f
			for _, i := range f.Imports {
				p, _ := strconv.Unquote(i.Path.Value)
				sync = sync || p == "sync" || p == "sync/atomic"
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if _, ok := n.(*ast.ChanType); ok {
					sync = true
				}
				return true
			})
		}
		if !sync {
			continue
		}
		for _, n := range names {
			f := files[n]
			if f == nil {
				continue
			}
			es := instrument(fset, f)
			if len(es) == 0 {
				continue
			}
			es = append(es, edit{fset.Position(f.Name.End()).Offset, imp})
			sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
			src, err := os.ReadFile(n)
			die(err)
			var b strings.Builder
			at := 0
			for _, e := range es {
				b.Write(src[at:e.at])
				b.WriteString(e.text)
				at = e.at
			}
			b.Write(src[at:])
			to := filepath.Join(out, fmt.Sprintf("point%d_%s", di, filepath.Base(n)))
			die(os.WriteFile(to, []byte(b.String()), 0o666))
			fmt.Printf("%q:%q,\n", n, to)
		}
	}
}
