package build

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Site is one yield point.
type Site struct {
	Pos  string // module-relative file:line
	Mod  string // repo, takenoco or nameutil
	Func string
	// Vars are the package-level variables that the statement here, or the one
	// before it in the same list, mentions, or whose type's method this is part
	// of. The search preempts there more often.
	Vars []string
}

type insertion struct {
	off  int
	text string
}

// Instrument copies the Go module at src to dst, giving every statement of its
// non-test files a yield point. Only .go files, go.mod and go.sum are copied.
func Instrument(src, dst, mod string, skip func(rel string) bool, sites *[]Site) error {
	globals := map[string]string{}
	var files []*ast.File
	filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if rel, _ := filepath.Rel(src, p); err == nil && fi.Mode().IsRegular() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !skip(rel) {
			if f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution); err == nil {
				globalVars(f, globals)
				files = append(files, f)
			}
		}
		return nil
	})
	changing(files, globals)
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		base := filepath.Base(p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "node_modules" || skip(rel)) {
				return filepath.SkipDir
			}
			return nil
		}
		if rel == "go.sum" || rel == "go.mod" {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return writeFile(filepath.Join(dst, rel), b)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(base, "_test.go") || skip(rel) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if strings.HasSuffix(base, ".go") {
			b, err = instrumentFile(b, mod+"/"+rel, mod, globals, sites)
			if err != nil {
				return err
			}
		} else if fi.Size() > 1<<20 {
			return nil // assets; anything embedded by the library is small
		}
		return writeFile(filepath.Join(dst, rel), b)
	})
}

func writeFile(p string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, b, 0o644)
}

// globalVars collects the names of a file's package-level variables, with the
// names of their types where the declaration tells.
func globalVars(f *ast.File, out map[string]string) {
	var typeOf func(e ast.Expr) string
	typeOf = func(e ast.Expr) string {
		switch e := e.(type) {
		case *ast.Ident:
			return e.Name
		case *ast.StarExpr:
			return typeOf(e.X)
		case *ast.UnaryExpr:
			return typeOf(e.X)
		case *ast.CompositeLit:
			return typeOf(e.Type)
		case *ast.IndexExpr:
			return typeOf(e.X)
		case *ast.CallExpr: // new(T), or a constructor newT
			if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "new" && len(e.Args) == 1 {
				return typeOf(e.Args[0])
			} else if ok && strings.HasPrefix(strings.ToLower(id.Name), "new") {
				return id.Name[3:]
			}
		}
		return ""
	}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					t := typeOf(vs.Type)
					if t == "" && i < len(vs.Values) {
						t = typeOf(vs.Values[i])
					}
					out[n.Name] = t
				}
			}
		}
	}
}

// changing keeps the variables that functions may change: those assigned to,
// those whose address is taken, and those with methods that are called. If
// there are none it keeps all.
func changing(files []*ast.File, globals map[string]string) {
	keep := map[string]bool{}
	var root func(e ast.Expr)
	root = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.Ident:
			keep[e.Name] = true
		case *ast.SelectorExpr:
			root(e.X)
		case *ast.IndexExpr:
			root(e.X)
		case *ast.StarExpr:
			root(e.X)
		case *ast.ParenExpr:
			root(e.X)
		case *ast.SliceExpr:
			root(e.X)
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						root(l)
					}
					for _, l := range n.Rhs { // an alias
						switch l.(type) {
						case *ast.Ident, *ast.SelectorExpr, *ast.SliceExpr:
							root(l)
						}
					}
				case *ast.IncDecStmt:
					root(n.X)
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						root(n.X)
					}
				case *ast.SendStmt:
					root(n.Chan)
				case *ast.CallExpr:
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						root(s.X)
					}
					if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "append" || id.Name == "clear" || id.Name == "copy") {
						for _, a := range n.Args {
							root(a)
						}
					}
				}
				return true
			})
		}
	}
	any := false
	for v := range globals {
		any = any || keep[v]
	}
	for v := range globals {
		if any && !keep[v] {
			delete(globals, v)
		}
	}
}

// mentions are the given names that a statement, without the statements nested
// in it, uses. It goes by the name alone: it only guides the search.
func mentions(s ast.Stmt, names map[string]string) (found []string) {
	var look func(n ast.Node) bool
	look = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SelectorExpr:
			ast.Inspect(n.X, look)
			return false
		case *ast.KeyValueExpr:
			ast.Inspect(n.Value, look)
			return false
		case *ast.Ident:
			if _, ok := names[n.Name]; ok {
				found = append(found, n.Name)
			}
		}
		return true
	}
	ast.Inspect(s, look)
	return found
}

func instrumentFile(b []byte, name, mod string, globals map[string]string, sites *[]Site) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, b, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	var ins []insertion
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	fn := ""
	var vars, recv []string
	y := func(p token.Pos, at int) {
		n := len(*sites)
		pos := fset.PositionFor(p, false)
		*sites = append(*sites, Site{Pos: fmt.Sprintf("%s:%d", name, pos.Line), Mod: mod, Func: fn, Vars: append(append([]string(nil), recv...), vars...)})
		ins = append(ins, insertion{at, fmt.Sprintf("simrt__.Y(%d); ", n)})
	}
	list := func(l []ast.Stmt) {
		var before []string
		for _, s := range l {
			here := mentions(s, globals)
			vars = append(append([]string(nil), before...), here...)
			before = here
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue // a switch or select body holds clauses
			}
			y(s.Pos(), off(s.Pos()))
		}
		vars = nil
	}
	walk := func(root ast.Node) {
		ast.Inspect(root, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.ForStmt:
				y(n.Body.Lbrace, off(n.Body.Lbrace)+1)
			case *ast.RangeStmt:
				y(n.Body.Lbrace, off(n.Body.Lbrace)+1)
			}
			return true
		})
	}
	for _, d := range f.Decls {
		fn = ""
		recv = nil
		if fd, ok := d.(*ast.FuncDecl); ok {
			fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					for v, vt := range globals {
						if strings.EqualFold(vt, id.Name) {
							recv = append(recv, v)
						}
					}
					sort.Strings(recv)
				}
			}
			// A go:nosplit or go:norace function must stay free of calls.
			if fd.Doc != nil && strings.Contains(fd.Doc.Text(), "go:nosplit") {
				continue
			}
		}
		walk(d)
	}
	if len(ins) == 0 {
		return b, nil
	}
	ins = append(ins, insertion{off(f.Name.End()), `; import simrt__ "simrt"`})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out strings.Builder
	last := 0
	for _, i := range ins {
		out.Write(b[last:i.off])
		out.WriteString(i.text)
		last = i.off
	}
	out.Write(b[last:])
	return []byte(out.String()), nil
}
