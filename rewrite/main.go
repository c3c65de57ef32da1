// rewrite makes a build overlay in which the library's goroutines, channels
// and locks are replaced by calls to the controlled scheduler (package vsched),
// and every statement is preceded by a scheduling point.
//
//	rewrite REPO VSCHEDSRC OUTDIR EXTRADIR...
//
// REPO's packages and the EXTRADIRs (harness packages, not given statement
// points) are rewritten.  OUTDIR receives the files and overlay.json.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/idoall/stockindicator"
const vs = "vsched__"

var atomics bool

type pkgInfo struct {
	dir   string
	path  string
	files []*ast.File
	names []string
	src   [][]byte
	tpkg  *types.Package
	info  *types.Info
	busy  bool
	extra bool
}

type world struct {
	fset *token.FileSet
	repo string
	pk   map[string]*pkgInfo
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(1)
}

func (w *world) load(path, dir string, extra bool) *pkgInfo {
	if p := w.pk[path]; p != nil {
		return p
	}
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil {
		w.pk[path] = nil
		return nil
	}
	p := &pkgInfo{dir: dir, path: path, extra: extra}
	for _, n := range bp.GoFiles {
		full := filepath.Join(dir, n)
		b, err := os.ReadFile(full)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(w.fset, full, b, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		p.files = append(p.files, f)
		p.names = append(p.names, full)
		p.src = append(p.src, b)
	}
	w.pk[path] = p
	return p
}

// Import resolves packages of the module from source and makes empty packages
// of all others: only the kinds of channel expressions matter.
func (w *world) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		p := w.load(path, filepath.Join(w.repo, strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")), false)
		if p != nil && !p.busy {
			w.check(p)
			if p.tpkg != nil {
				return p.tpkg, nil
			}
		}
	}
	t := types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
	t.MarkComplete()
	return t, nil
}

func (w *world) check(p *pkgInfo) {
	if p.tpkg != nil {
		return
	}
	p.busy = true
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	cfg := types.Config{Importer: w, Error: func(error) {}, FakeImportC: true, GoVersion: "go1.21"}
	p.tpkg, _ = cfg.Check(p.path, w.fset, p.files, p.info)
	p.busy = false
}

// ------------------------------------------------------------- rewriting

type rw struct {
	w     *world
	p     *pkgInfo
	used  bool
	n     int
	point bool
	err   error
}

func (r *rw) fail(f string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf(f, a...)
	}
}

func (r *rw) fresh(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("v__%s%d", s, r.n))
}

func (r *rw) fn(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(vs), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rw) isChan(e ast.Expr) bool {
	tv, ok := r.p.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	switch u := tv.Type.Underlying().(type) {
	case *types.Chan:
		return true
	case *types.Interface:
		// a type parameter constrained to channels
		if _, isTP := tv.Type.(*types.TypeParam); isTP {
			all := u.NumEmbeddeds() > 0
			for k := 0; k < u.NumEmbeddeds(); k++ {
				et := u.EmbeddedType(k)
				if un, ok := et.(*types.Union); ok {
					for j := 0; j < un.Len(); j++ {
						if _, ok := un.Term(j).Type().Underlying().(*types.Chan); !ok {
							all = false
						}
					}
				} else if _, ok := et.Underlying().(*types.Chan); !ok {
					all = false
				}
			}
			return all
		}
	}
	return false
}

// elemOf: the element type of a named channel type.
func (r *rw) elemOf(e ast.Expr) ast.Expr {
	tv, ok := r.p.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	if _, isTP := tv.Type.(*types.TypeParam); isTP {
		return nil
	}
	c, ok := tv.Type.Underlying().(*types.Chan)
	if !ok {
		return nil
	}
	text := types.TypeString(c.Elem(), func(p *types.Package) string {
		if p == r.p.tpkg {
			return ""
		}
		return p.Name()
	})
	x, err := parser.ParseExpr(text)
	if err != nil {
		return nil
	}
	return x
}

func (r *rw) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	o, ok := r.p.info.Uses[id]
	if !ok {
		return true
	}
	_, ok = o.(*types.Builtin)
	return ok
}

func (r *rw) pkgOf(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if o, ok := r.p.info.Uses[id].(*types.PkgName); ok {
		return o.Imported().Path()
	}
	return ""
}

func paren(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// recvOf: the channel if e is a receive expression.
func recvOf(e ast.Expr) (ast.Expr, bool) {
	u, ok := paren(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		return &ast.ParenExpr{X: &ast.StarExpr{X: &ast.IndexExpr{X: r.fn("Chan"), Index: r.expr(x.Value)}}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.fn("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.CallExpr:
		if len(x.Args) > 0 {
			if r.builtin(x.Fun, "make") {
				if ct, ok := paren(x.Args[0]).(*ast.ChanType); ok {
					n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
					if len(x.Args) > 1 {
						n = call(ast.NewIdent("int"), r.expr(x.Args[1]))
					}
					return call(&ast.IndexExpr{X: r.fn("Make"), Index: r.expr(ct.Value)}, n)
				}
				if el := r.elemOf(x.Args[0]); el != nil {
					n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
					if len(x.Args) > 1 {
						n = call(ast.NewIdent("int"), r.expr(x.Args[1]))
					}
					return call(&ast.ParenExpr{X: r.expr(x.Args[0])}, call(&ast.IndexExpr{X: r.fn("Make"), Index: r.expr(el)}, n))
				}
				if r.isChan(x.Args[0]) {
					r.fail("make of a channel type parameter")
				}
			}
			for b, f := range map[string]string{"close": "Close", "len": "Len", "cap": "Cap"} {
				if r.builtin(x.Fun, b) && len(x.Args) == 1 && (b == "close" || r.isChan(x.Args[0])) {
					return call(r.fn(f), r.expr(x.Args[0]))
				}
			}
		}
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			switch r.pkgOf(s.X) {
			case "time":
				switch s.Sel.Name {
				case "Sleep":
					return call(r.fn("Sleep"), r.exprs(x.Args)...)
				case "After", "NewTimer", "NewTicker", "Tick", "AfterFunc":
					r.fail("timers are not modelled")
				}
			case "runtime":
				if s.Sel.Name == "Gosched" {
					return call(r.fn("Gosched"))
				}
			case "context":
				r.fail("contexts are not modelled")
			case "reflect":
				if s.Sel.Name == "Select" || s.Sel.Name == "MakeChan" {
					r.fail("channels by reflection are not modelled")
				}
			}
		}
		x.Fun = r.expr(x.Fun)
		x.Args = r.exprs(x.Args)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		x.Indices = r.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X, x.Type = r.expr(x.X), r.expr(x.Type)
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		x.Elts = r.exprs(x.Elts)
	case *ast.ArrayType:
		x.Elt = r.expr(x.Elt)
		x.Len = r.expr(x.Len)
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.StructType:
		r.fields(x.Fields)
	case *ast.InterfaceType:
		r.fields(x.Methods)
	case *ast.FuncType:
		r.fields(x.TypeParams)
		r.fields(x.Params)
		r.fields(x.Results)
	case *ast.FuncLit:
		r.expr(x.Type)
		r.block(x.Body)
	}
	return e
}

func (r *rw) exprs(l []ast.Expr) []ast.Expr {
	for k := range l {
		l[k] = r.expr(l[k])
	}
	return l
}

func (r *rw) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.expr(f.Type)
	}
}

var sites int

func (r *rw) pt() ast.Stmt {
	sites++
	return &ast.ExprStmt{X: call(r.fn("Point"), &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(sites - 1)})}
}

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.list(b.List)
	}
}

func (r *rw) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if r.point {
			switch s.(type) {
			case *ast.DeclStmt, *ast.EmptyStmt, *ast.LabeledStmt, *ast.BranchStmt:
			default:
				out = append(out, r.pt())
			}
		}
		out = append(out, r.stmt(s)...)
	}
	return out
}

// one wraps a rewritten statement for a place that takes one statement.
func (r *rw) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	r.fail("a statement in a header became several")
	return s
}

func hoistable(e ast.Expr) bool {
	switch x := paren(e).(type) {
	case *ast.BasicLit:
		return false
	case *ast.Ident:
		return x.Name != "nil" && x.Name != "true" && x.Name != "false"
	}
	return true
}

func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.SendStmt:
		return []ast.Stmt{&ast.ExprStmt{X: call(call(r.fn("To"), r.expr(x.Chan)), r.expr(x.Value))}}
	case *ast.GoStmt:
		c := x.Call
		var pre []ast.Stmt
		if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
			return []ast.Stmt{&ast.ExprStmt{X: call(r.fn("Go"), r.expr(fl))}}
		}
		for k, a := range c.Args {
			a = r.expr(a)
			if hoistable(a) {
				if _, isFn := a.(*ast.FuncLit); !isFn {
					v := r.fresh("a")
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
					a = v
				}
			}
			c.Args[k] = a
		}
		c.Fun = r.expr(c.Fun)
		body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
		pre = append(pre, &ast.ExprStmt{X: call(r.fn("Go"), body)})
		return []ast.Stmt{&ast.BlockStmt{List: pre}}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if ch, ok := recvOf(x.Rhs[0]); ok {
				x.Lhs = r.exprs(x.Lhs)
				x.Rhs[0] = call(r.fn("Recv2"), r.expr(ch))
				return []ast.Stmt{x}
			}
		}
		x.Lhs = r.exprs(x.Lhs)
		x.Rhs = r.exprs(x.Rhs)
	case *ast.DeclStmt:
		r.decl(x.Decl)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.DeferStmt:
		x.Call = r.expr(x.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		x.Results = r.exprs(x.Results)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.one(x.Else)
		}
	case *ast.ForStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.one(x.Post)
		r.block(x.Body)
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			return r.rangeChan(x)
		}
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		x.X = r.expr(x.X)
		r.block(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.one(x.Init)
		x.Tag = r.expr(x.Tag)
		r.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.one(x.Init)
		x.Assign = r.one(x.Assign)
		r.clauses(x.Body)
	case *ast.SelectStmt:
		return r.sel(x)
	case *ast.LabeledStmt:
		l := r.stmt(x.Stmt)
		if len(l) != 1 {
			r.fail("label on a rewritten statement")
			return []ast.Stmt{x}
		}
		if _, isSel := x.Stmt.(*ast.SelectStmt); isSel {
			r.fail("label on a select")
		}
		x.Stmt = l[0]
	}
	return []ast.Stmt{s}
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, s := range b.List {
		if c, ok := s.(*ast.CaseClause); ok {
			c.List = r.exprs(c.List)
			c.Body = r.list(c.Body)
		}
	}
}

func (r *rw) rangeChan(x *ast.RangeStmt) []ast.Stmt {
	vc, vt, ok := r.fresh("c"), r.fresh("t"), r.fresh("ok")
	ch := r.expr(x.X)
	r.block(x.Body)
	body := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{vt, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.fn("Recv2"), vc)}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
	}
	init := &ast.AssignStmt{Lhs: []ast.Expr{vc}, Tok: token.DEFINE, Rhs: []ast.Expr{ch}}
	if id, isId := x.Key.(*ast.Ident); x.Key == nil || isId && id.Name == "_" {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{vt}})
	} else if x.Tok == token.DEFINE {
		// the loop variable is one variable for the whole loop (go 1.21)
		init.Lhs = append(init.Lhs, x.Key)
		init.Rhs = []ast.Expr{call(r.fn("Range"), ch)}
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{vt}})
	} else {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{vt}})
	}
	body = append(body, x.Body)
	return []ast.Stmt{&ast.ForStmt{Init: init, Body: &ast.BlockStmt{List: body}}}
}

func (r *rw) sel(x *ast.SelectStmt) []ast.Stmt {
	var pre []ast.Stmt
	args := []ast.Expr{ast.NewIdent("false")}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	k := 0
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		cc := &ast.CaseClause{}
		var head []ast.Stmt
		if c.Comm == nil {
			args[0] = ast.NewIdent("true")
			cc.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
		} else {
			v := r.fresh("s")
			cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}
			k++
			var rhs ast.Expr
			switch m := c.Comm.(type) {
			case *ast.SendStmt:
				rhs = call(call(r.fn("SendCase"), r.expr(m.Chan)), r.expr(m.Value))
			case *ast.ExprStmt:
				ch, ok := recvOf(m.X)
				if !ok {
					r.fail("select case")
					return []ast.Stmt{x}
				}
				rhs = call(r.fn("RecvCase"), r.expr(ch))
			case *ast.AssignStmt:
				ch, ok := recvOf(m.Rhs[0])
				if !ok {
					r.fail("select case")
					return []ast.Stmt{x}
				}
				rhs = call(r.fn("RecvCase"), r.expr(ch))
				a := &ast.AssignStmt{Lhs: r.exprs(m.Lhs), Tok: m.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: v, Sel: ast.NewIdent("V")}}}
				if len(m.Lhs) == 2 {
					a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: v, Sel: ast.NewIdent("OK")})
				}
				head = append(head, a)
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}})
			args = append(args, v)
		}
		cc.Body = append(head, r.list(c.Body)...)
		sw.Body.List = append(sw.Body.List, cc)
	}
	sw.Tag = call(r.fn("Select"), args...)
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, sw)}}
}

func (r *rw) decl(d ast.Decl) {
	g, ok := d.(*ast.GenDecl)
	if !ok {
		return
	}
	for _, s := range g.Specs {
		switch x := s.(type) {
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if ch, ok := recvOf(x.Values[0]); ok {
					x.Values[0] = call(r.fn("Recv2"), r.expr(ch))
					x.Type = r.expr(x.Type)
					continue
				}
			}
			x.Type = r.expr(x.Type)
			x.Values = r.exprs(x.Values)
		case *ast.TypeSpec:
			r.fields(x.TypeParams)
			x.Type = r.expr(x.Type)
		}
	}
}

func (r *rw) file(f *ast.File) {
	for _, im := range f.Imports {
		if im.Path.Value == `"sync/atomic"` {
			atomics = true
		}
		if im.Path.Value == `"sync"` {
			im.Path.Value = strconv.Quote(modPath + "/vsched/vsync")
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			r.fields(fd.Recv)
			r.expr(fd.Type)
			r.block(fd.Body)
			continue
		}
		r.decl(d)
	}
	if r.used {
		im := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(vs), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/vsched")}}}}
		f.Decls = append([]ast.Decl{im}, f.Decls...)
	}
}

func main() {
	if len(os.Args) < 4 {
		die("usage: rewrite REPO VSCHEDSRC OUT [EXTRADIR=IMPORTPATH]...")
	}
	repo, vsrc, out := os.Args[1], os.Args[2], os.Args[3]
	native := os.Getenv("VSCHED_NATIVE") != ""
	w := &world{fset: token.NewFileSet(), repo: repo, pk: map[string]*pkgInfo{}}
	var pkgs []*pkgInfo
	if !native {
		filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
			if err != nil || !fi.IsDir() {
				return nil
			}
			b := filepath.Base(p)
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			rel, _ := filepath.Rel(repo, p)
			path := modPath
			if rel != "." {
				path += "/" + filepath.ToSlash(rel)
			}
			if m, _ := filepath.Glob(filepath.Join(p, "*.go")); len(m) > 0 {
				if pi := w.load(path, p, false); pi != nil && pi.files != nil && pi.files[0].Name.Name != "main" {
					pkgs = append(pkgs, pi)
				}
			}
			return nil
		})
		for _, a := range os.Args[4:] {
			kv := strings.SplitN(a, "=", 2)
			if pi := w.load(kv[1], kv[0], true); pi != nil {
				pkgs = append(pkgs, pi)
			}
		}
	}
	repl := map[string]string{}
	os.MkdirAll(out, 0o755)
	for _, p := range pkgs {
		w.check(p)
	}
	sort.Slice(pkgs, func(a, b int) bool { return pkgs[a].path < pkgs[b].path })
	for pi, p := range pkgs {
		for k, f := range p.files {
			if bytes.Contains(p.src[k], []byte("//go:embed")) || bytes.Contains(p.src[k], []byte("//go:linkname")) {
				continue
			}
			r := &rw{w: w, p: p, point: !p.extra}
			r.file(f)
			if r.err != nil {
				die("%s: %v", p.names[k], r.err)
			}
			var b bytes.Buffer
			if err := format.Node(&b, token.NewFileSet(), f); err != nil {
				die("%s: %v", p.names[k], err)
			}
			name := filepath.Join(out, fmt.Sprintf("%d_%d_%s", pi, k, filepath.Base(p.names[k])))
			if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			repl[p.names[k]] = name
		}
	}
	repl[filepath.Join(repo, "vsched", "vsched.go")] = filepath.Join(vsrc, "vsched.go.txt")
	repl[filepath.Join(repo, "vsched", "vsync", "vsync.go")] = filepath.Join(vsrc, "vsync.go.txt")
	mode := "rewritten"
	if native {
		mode = "native"
	}
	mf := filepath.Join(out, "mode.go")
	os.WriteFile(mf, []byte(fmt.Sprintf("package vsched\n\n// Native: the library was not rewritten.\nconst Native = %v // %s\n\n// Atomics: the library uses atomic variables, which are not operations of the scheduler.\nconst Atomics = %v\n\n// Sites is the number of statements with a scheduling point.\nconst Sites = %d\n", native, mode, atomics, sites)), 0o644)
	repl[filepath.Join(repo, "vsched", "mode.go")] = mf
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
}
