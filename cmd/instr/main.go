// Command instr writes a build overlay in which every statement of every
// non-test source file of the repository is preceded, on the same line, by a
// simulator yield point, and package sync is replaced by simsync. The
// repository itself is not touched. Go statements and channel operations become
// calls of the simulator; if the code has one that conc.go cannot handle, no
// yield points are added (the overlay is empty): simulated threads then switch
// only between operations.
//
// A second overlay also puts a hook into crypto/elliptic's generic ScalarMult,
// with which the simulator replaces the multiplication on the SM2 curve by a
// faster one (cmd/gmsim/simcurve.go).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off int
	txt string
	del int
}

type site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
	Flag int    `json:"flag,omitempty"`
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	must(os.MkdirAll(out, 0o755))
	var files []string
	must(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		n := fi.Name()
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			files = append(files, p)
		}
		return nil
	}))
	sort.Strings(files)
	vars := packageVars(files)
	maps := mapUses(files)
	threads, coarse := concurrency(files)
	if os.Getenv("GMSIM_COARSE") != "" {
		threads, coarse = nil, "the instrumented code does not build"
	}
	replace := map[string]string{}
	var sites []site
	for _, p := range files {
		src, err := os.ReadFile(p)
		must(err)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			// Not buildable: the build that follows reports it.
			continue
		}
		usesC := false
		for _, im := range f.Imports {
			usesC = usesC || im.Path.Value == `"C"`
		}
		if usesC {
			continue
		}
		rel, _ := filepath.Rel(repo, p)
		var edits []ins
		off := func(ps token.Pos) int { return fs.Position(ps).Offset }
		if f.Name.Name == "main" {
			continue
		}
		fn := ""
		add := func(ps token.Pos, o int) {
			po := fs.Position(ps)
			sites = append(sites, site{len(sites), fmt.Sprintf("%s:%d", rel, po.Line), fn, 0})
			edits = append(edits, ins{o, fmt.Sprintf("simrt_.Y(%d);", len(sites)-1), 0})
		}
		var params map[string]bool
		list := func(l []ast.Stmt) {
			prev := 0
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				add(s.Pos(), off(s.Pos()))
				now := flags(s, vars[filepath.Dir(p)], params)
				sites[len(sites)-1].Flag = now | prev
				prev = now
				for _, u := range maps[fmt.Sprintf("%s:%d", p, off(s.Pos()))] {
					add(s.Pos(), off(s.Pos()))
					sites[len(sites)-1].Flag = 1 | now
					edits[len(edits)-1].txt = fmt.Sprintf("simrt_.M(%d,%v,func()interface{}{return %s});", len(sites)-1, u.write, u.expr)
				}
			}
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
				params = names(fd.Recv, fd.Type.Params)
			} else {
				fn, params = "", nil
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					if len(x.List) > 0 {
						switch x.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				case *ast.ForStmt:
					if len(x.Body.List) == 0 {
						add(x.Body.Lbrace, off(x.Body.Lbrace)+1)
					}
				case *ast.RangeStmt:
					if len(x.Body.List) == 0 {
						add(x.Body.Lbrace, off(x.Body.Lbrace)+1)
					}
				}
				return true
			})
		}
		edits = append(edits, threads[p]...)
		n := len(edits)
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				edits = append(edits, ins{off: off(im.Path.Pos())})
				if im.Name == nil {
					edits[len(edits)-1].txt = "sync "
				}
			}
		}
		if n > 0 {
			edits = append(edits, ins{off(f.Name.End()), `; import simrt_ "gmverif/simrt"`, 0})
		}
		if len(edits) == 0 {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var b strings.Builder
		at := 0
		for _, e := range edits {
			b.Write(src[at:e.off])
			b.WriteString(e.txt)
			at = e.off + e.del
		}
		b.Write(src[at:])
		txt := strings.ReplaceAll(b.String(), `sync "sync"`, `sync "gmverif/simsync"`)
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` && im.Name != nil && im.Name.Name != "sync" {
				txt = strings.ReplaceAll(txt, im.Name.Name+` "sync"`, im.Name.Name+` "gmverif/simsync"`)
			}
		}
		dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
		must(os.WriteFile(dst, []byte(txt), 0o644))
		replace[p] = dst
	}
	if coarse != "" || len(sites) >= 1<<14 {
		replace = map[string]string{}
		if coarse == "" {
			coarse = "too many statements"
		}
	}
	if len(os.Args) > 4 {
		var b strings.Builder
		for _, s := range sites {
			b.WriteByte('0' + byte(s.Flag))
		}
		dst := filepath.Join(out, "flags.go")
		must(os.WriteFile(dst, []byte(fmt.Sprintf("package simrt\n\nconst Flags = %q\n", b.String())), 0o644))
		replace[filepath.Join(os.Args[4], "simrt", "flags.go")] = dst
	}
	write(filepath.Join(out, "overlay.json"), map[string]interface{}{"Replace": replace})
	if len(os.Args) > 3 {
		fast := map[string]string{}
		for k, v := range replace {
			fast[k] = v
		}
		p := filepath.Join(os.Args[3], "src", "crypto", "elliptic", "params.go")
		src, err := os.ReadFile(p)
		head := "func (curve *CurveParams) ScalarMult(Bx, By *big.Int, k []byte) (*big.Int, *big.Int) {\n"
		if err == nil && strings.Count(string(src), head) == 1 {
			txt := strings.Replace(string(src), head, head+`	if f := SimScalarMult; f != nil {
		if x, y := f(curve, Bx, By, k); x != nil {
			return x, y
		}
	}
`, 1) + "\n// SimScalarMult is the simulator's hook.\nvar SimScalarMult func(curve *CurveParams, Bx, By *big.Int, k []byte) (x, y *big.Int)\n"
			dst := filepath.Join(out, "elliptic_params.go")
			must(os.WriteFile(dst, []byte(txt), 0o644))
			fast[p] = dst
			write(filepath.Join(out, "fast.json"), map[string]interface{}{"Replace": fast})
		}
	}
	write(filepath.Join(out, "sites.json"), map[string]interface{}{"coarse": coarse, "files": len(replace), "sites": sites})
}

// packageVars collects, by directory, the package-level variables that some
// function assigns to, takes the address of, calls a method on or passes on.
// This, like flags, is only a hint about where preemptions may be interesting.
func packageVars(files []string) map[string]map[string]bool {
	decl, used := map[string]map[string]bool{}, map[string]map[string]bool{}
	for _, p := range files {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		d := filepath.Dir(p)
		if decl[d] == nil {
			decl[d], used[d] = map[string]bool{}, map[string]bool{}
		}
		mark := func(e ast.Expr) {
			if n := root(e); n != "" {
				used[d][n] = true
			}
		}
		for _, x := range f.Decls {
			switch x := x.(type) {
			case *ast.GenDecl:
				for _, sp := range x.Specs {
					if vs, ok := sp.(*ast.ValueSpec); ok && x.Tok == token.VAR {
						for _, n := range vs.Names {
							decl[d][n.Name] = true
						}
					}
				}
			case *ast.FuncDecl:
				ast.Inspect(x, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.AssignStmt:
						for _, l := range n.Lhs {
							mark(l)
						}
						if n.Tok == token.DEFINE {
							break
						}
					case *ast.IncDecStmt:
						mark(n.X)
					case *ast.UnaryExpr:
						if n.Op == token.AND {
							mark(n.X)
						}
					case *ast.SliceExpr:
						mark(n.X)
					case *ast.CallExpr:
						if s, ok := n.Fun.(*ast.SelectorExpr); ok {
							mark(s.X)
						}
						for _, a := range n.Args {
							mark(a)
						}
					}
					return true
				})
			}
		}
	}
	for d, m := range decl {
		for n := range m {
			if !used[d][n] || n == "_" {
				delete(m, n)
			}
		}
	}
	return decl
}

// root is the variable an expression reaches its operand through.
func root(e ast.Expr) string {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return ""
		}
	}
}

type mapUse struct {
	expr  string
	write bool
}

// mapUses lists, by file and offset of a simple statement, the maps it reads or
// writes. What cannot be resolved without other packages is left out.
func mapUses(files []string) map[string][]mapUse {
	uses := map[string][]mapUse{}
	fs := token.NewFileSet()
	dirs := map[string][]*ast.File{}
	src := map[*ast.File][]byte{}
	for _, p := range files {
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		if f, err := parser.ParseFile(fs, p, b, parser.SkipObjectResolution); err == nil {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], f)
			src[f] = b
		}
	}
	for d, list := range dirs {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Error: func(error) {}, Importer: noImports{}, FakeImportC: true}
		conf.Check(d, fs, list, info)
		isMap := func(e ast.Expr) bool {
			t := info.Types[e].Type
			if t == nil {
				return false
			}
			_, ok := t.Underlying().(*types.Map)
			return ok
		}
		for _, f := range list {
			text := func(e ast.Expr) string {
				return string(src[f][fs.Position(e.Pos()).Offset:fs.Position(e.End()).Offset])
			}
			ast.Inspect(f, func(n ast.Node) bool {
				s, ok := n.(ast.Stmt)
				if !ok {
					return true
				}
				local := map[string]bool{}
				var parts []ast.Node
				switch s := s.(type) {
				case *ast.AssignStmt, *ast.IncDecStmt, *ast.ExprStmt, *ast.ReturnStmt, *ast.DeclStmt:
					parts = []ast.Node{s}
				case *ast.IfStmt:
					if s.Init != nil {
						parts = append(parts, s.Init)
						if a, ok := s.Init.(*ast.AssignStmt); ok {
							for _, l := range a.Lhs {
								local[root(l)] = true
							}
						}
					}
					parts = append(parts, s.Cond)
				case *ast.RangeStmt:
					if isMap(s.X) && path(s.X) {
						parts = []ast.Node{&ast.IndexExpr{X: s.X, Index: s.X}}
					}
				}
				var out []mapUse
				add := func(e ast.Expr, w bool) {
					if path(e) && isMap(e) && !local[root(e)] {
						out = append(out, mapUse{text(e), w})
					}
				}
				writes := map[ast.Expr]bool{}
				for _, p := range parts {
					ast.Inspect(p, func(n ast.Node) bool {
						switch x := n.(type) {
						case *ast.FuncLit, *ast.BlockStmt:
							return false
						case *ast.AssignStmt:
							for _, l := range x.Lhs {
								writes[l] = true
							}
						case *ast.IncDecStmt:
							writes[x.X] = true
						case *ast.IndexExpr:
							add(x.X, writes[x])
						case *ast.CallExpr:
							if i, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
								switch i.Name {
								case "delete", "clear":
									add(x.Args[0], true)
								case "len":
									add(x.Args[0], false)
								}
							}
						}
						return true
					})
				}
				if len(out) > 0 {
					ps := fs.Position(s.Pos())
					uses[fmt.Sprintf("%s:%d", ps.Filename, ps.Offset)] = out
				}
				return true
			})
		}
	}
	return uses
}

// path reports whether e only follows names.
func path(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return path(x.X)
	case *ast.ParenExpr:
		return path(x.X)
	}
	return false
}

type noImports struct{}

func (noImports) Import(p string) (*types.Package, error) {
	pk := types.NewPackage(p, filepath.Base(p))
	pk.MarkComplete()
	return pk, nil
}

func names(ls ...*ast.FieldList) map[string]bool {
	m := map[string]bool{}
	for _, l := range ls {
		if l != nil {
			for _, f := range l.List {
				for _, n := range f.Names {
					m[n.Name] = true
				}
			}
		}
	}
	return m
}

// flags: 1 if the statement itself (not the blocks in it) mentions one of the
// package's variables, 2 if it writes through a parameter or receiver.
func flags(s ast.Stmt, vars, params map[string]bool) (f int) {
	through := func(e ast.Expr) {
		if _, plain := e.(*ast.Ident); !plain && params[root(e)] {
			f |= 2
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.SelectorExpr:
			ast.Inspect(x.X, func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok && vars[i.Name] {
					f |= 1
				}
				return true
			})
			return true
		case *ast.Ident:
			if vars[x.Name] {
				f |= 1
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				through(l)
			}
		case *ast.IncDecStmt:
			through(x.X)
		case *ast.CallExpr:
			if i, ok := x.Fun.(*ast.Ident); ok && i.Name == "copy" && len(x.Args) == 2 {
				through(x.Args[0])
			}
		}
		return true
	})
	return f
}

func write(p string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	must(err)
	must(os.WriteFile(p, b, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}
