package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
)

// concurrency rewrites go statements and channel operations of the code under
// test into calls of the simulator, so that goroutines it starts are simulated
// threads and channels block threads, not the process. It returns the edits by
// file, or the name of a construct it cannot handle.
func concurrency(files []string) (map[string][]ins, string) {
	if !anyConcurrency(files) {
		return nil, ""
	}
	fs := token.NewFileSet()
	dirs := map[string][]*ast.File{}
	src := map[*ast.File][]byte{}
	for _, p := range files {
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		if f, err := parser.ParseFile(fs, p, b, parser.SkipObjectResolution); err == nil && f.Name.Name != "main" {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], f)
			src[f] = b
		}
	}
	out := map[string][]ins{}
	imp := importer.ForCompiler(fs, "source", nil)
	for d, list := range dirs {
		need := false
		for _, f := range list {
			need = need || usesConcurrency(f)
		}
		if !need {
			continue
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		var bad error
		conf := types.Config{Error: func(err error) { bad = err }, Importer: imp}
		if wd, err := os.Getwd(); err == nil {
			os.Chdir(d)
			defer os.Chdir(wd)
		}
		pkg, _ := conf.Check(d, fs, list, info)
		if bad != nil {
			return nil, "concurrency in a package that does not type-check: " + bad.Error()
		}
		for _, f := range list {
			c := &conc{fs: fs, f: f, pkg: pkg, info: info, src: src[f]}
			ast.Walk(c, f)
			if c.bad != "" {
				return nil, filepath.Base(fs.Position(f.Pos()).Filename) + ": " + c.bad
			}
			if len(c.edits) > 0 {
				out[fs.Position(f.Pos()).Filename] = c.edits
			}
		}
	}
	return out, ""
}

func anyConcurrency(files []string) bool {
	for _, p := range files {
		if f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution); err == nil && f.Name.Name != "main" && usesConcurrency(f) {
			return true
		}
	}
	return false
}

func usesConcurrency(f *ast.File) bool {
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.GoStmt, *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
			found = true
		}
		return !found
	})
	return found
}

type conc struct {
	fs    *token.FileSet
	f     *ast.File
	pkg   *types.Package
	info  *types.Info
	src   []byte
	edits []ins
	bad   string
	two   map[ast.Expr]bool // receives whose second result is used
	skip  map[ast.Node]bool // communications of select statements
	label map[ast.Stmt]token.Pos
}

func (c *conc) off(p token.Pos) int { return c.fs.Position(p).Offset }
func (c *conc) text(e ast.Expr) string {
	return string(c.src[c.off(e.Pos()):c.off(e.End())])
}
func (c *conc) put(p token.Pos, del int, txt string) {
	c.edits = append(c.edits, ins{c.off(p), txt, del})
}

func (c *conc) elem(e ast.Expr) string {
	t := c.info.Types[e].Type
	if t == nil {
		c.bad = "channel of unknown type"
		return ""
	}
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		c.bad = "channel of unknown type"
		return ""
	}
	return types.TypeString(ch.Elem(), func(p *types.Package) string {
		if p == c.pkg {
			return ""
		}
		for _, im := range c.f.Imports {
			if s, _ := strconv.Unquote(im.Path.Value); s == p.Path() {
				if im.Name != nil && im.Name.Name != "." && im.Name.Name != "_" {
					return im.Name.Name
				}
				if im.Name == nil {
					return p.Name()
				}
			}
		}
		c.bad = "channel element type from a package the file does not import"
		return p.Name()
	})
}

func (c *conc) isChan(e ast.Expr) bool {
	t := c.info.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (c *conc) recv1(t string) string {
	return "func(c <-chan " + t + ") " + t + "{simrt_.WaitRecv(c);v:=<-c;simrt_.Took(c);return v}("
}
func (c *conc) recv2(t string) string {
	return "func(c <-chan " + t + ") (" + t + ",bool){simrt_.WaitRecv(c);v,ok:=<-c;simrt_.Took(c);return v,ok}("
}

func (c *conc) Visit(n ast.Node) ast.Visitor {
	if c.two == nil {
		c.two, c.skip, c.label = map[ast.Expr]bool{}, map[ast.Node]bool{}, map[ast.Stmt]token.Pos{}
	}
	if n == nil || c.bad != "" || c.skip[n] {
		return nil
	}
	switch x := n.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := recvOf(x.Rhs[0]); u != nil {
				c.two[u] = true
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u := recvOf(x.Values[0]); u != nil {
				c.two[u] = true
			}
		}
	case *ast.LabeledStmt:
		c.label[x.Stmt] = x.Pos()
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			t := c.elem(x.X)
			s := c.recv1(t)
			if c.two[x] {
				s = c.recv2(t)
			}
			c.put(x.OpPos, 2, s)
			c.put(x.X.End(), 0, ")")
		}
	case *ast.SendStmt:
		c.put(x.Chan.Pos(), 0, "simrt_.Send(")
		c.put(x.Arrow, 2, ",")
		c.put(x.Value.End(), 0, ")")
	case *ast.GoStmt:
		call := x.Call
		if id, ok := call.Fun.(*ast.Ident); ok {
			if _, b := c.info.Uses[id].(*types.Builtin); b {
				c.bad = "go statement with a builtin"
				return nil
			}
		}
		if tv := c.info.Types[call.Fun]; tv.IsType() {
			c.bad = "go statement with a conversion"
			return nil
		}
		f := "simrt_.Go(simrt_.Bind("
		if call.Ellipsis.IsValid() {
			f = "simrt_.Go(simrt_.BindSlice("
			c.put(call.Ellipsis, 3, "")
		}
		c.put(x.Go, 2, f)
		sep := ""
		if len(call.Args) > 0 {
			sep = ","
		}
		c.put(call.Lparen, 1, sep)
		c.put(call.Rparen, 1, "))")
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 0 && c.isChan(x.Args[0]) {
			if _, b := c.info.Uses[id].(*types.Builtin); !b {
				break
			}
			if len(x.Args) == 1 {
				c.put(x.Args[0].End(), 0, ",simrt_.Unbuffered")
			} else {
				c.put(x.Args[1].Pos(), 0, "simrt_.Capacity(int(")
				c.put(x.Args[1].End(), 0, "))")
			}
		}
	case *ast.RangeStmt:
		if c.isChan(x.X) {
			t := c.elem(x.X)
			key, op := "_", ":="
			if x.Key != nil {
				key = c.text(x.Key)
			}
			decl := ""
			if x.Tok == token.ASSIGN {
				decl, op = "var simrt_ok bool;", "="
			}
			c.put(x.For, c.off(x.X.Pos())-c.off(x.For), "for simrt_c:=(<-chan "+t+")(")
			c.put(x.X.End(), c.off(x.Body.Lbrace)+1-c.off(x.X.End()), ");;{"+decl+key+",simrt_ok"+op+c.recv2(t)+"simrt_c);if !simrt_ok{break};")
			ast.Walk(c, x.X)
			ast.Walk(c, x.Body)
			return nil
		}
	case *ast.SelectStmt:
		def, wait := false, ""
		for _, s := range x.Body.List {
			cc := s.(*ast.CommClause)
			if cc.Comm == nil {
				def = true
				continue
			}
			c.skip[cc.Comm] = true
			var u *ast.UnaryExpr
			switch y := cc.Comm.(type) {
			case *ast.ExprStmt:
				u = recvOf(y.X)
			case *ast.AssignStmt:
				u = recvOf(y.Rhs[0])
			}
			if u == nil {
				c.bad = "select with a send"
				return nil
			}
			if !path(u.X) {
				c.bad = "select on a computed channel"
				return nil
			}
			wait += "," + c.text(u.X)
			c.put(cc.Colon, 1, ":simrt_.Took("+c.text(u.X)+");")
		}
		if !def {
			at := x.Pos()
			if p, ok := c.label[x]; ok {
				at = p
			}
			c.put(at, 0, fmt.Sprintf("simrt_.WaitAny(\"select\"%s);", wait))
		}
	}
	return c
}
