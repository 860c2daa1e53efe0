// weave rewrites Go packages so that they run under the simulator: channel
// operations, go statements, map iteration and package initialisation become
// calls into sim, standard packages with effects become their shims, and a
// yield goes before every statement. It changes no behaviour that the Go
// language promises.
//
// usage: weave -src DIR -out DIR [-dep importpath=name ...]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
}

var shims = map[string]bool{}

const shimRoot = "verif/dst/shim/"
const simPath = "verif/dst/sim"

type depList []string

func (d *depList) String() string     { return strings.Join(*d, ",") }
func (d *depList) Set(s string) error { *d = append(*d, s); return nil }

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "weave: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "", "module directory")
	out := flag.String("out", "", "output directory")
	shimDir := flag.String("shims", "", "shim directory")
	var deps depList
	flag.Var(&deps, "dep", "third-party package to weave as importpath=dirname")
	flag.Parse()
	filepath.Walk(*shimDir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			r, _ := filepath.Rel(*shimDir, filepath.Dir(p))
			shims[filepath.ToSlash(r)] = true
		}
		return nil
	})
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pkgs = append(pkgs, p)
		exports[p.ImportPath] = p.Export
	}
	mod := ""
	for _, p := range pkgs {
		if p.Module != nil && strings.HasPrefix(p.Dir, *src) {
			mod = p.Module.Path
		}
	}
	rename := map[string]string{}
	plain := map[string]bool{}
	for _, d := range deps {
		kv := strings.SplitN(d, "=", 2)
		if strings.HasSuffix(kv[1], "!") { // no yields: only its clock and locks are simulated
			kv[1] = strings.TrimSuffix(kv[1], "!")
			plain[kv[0]] = true
		}
		rename[kv[0]] = mod + "/zzdep/" + kv[1]
	}
	n := 0
	for _, p := range pkgs {
		np, isDep := rename[p.ImportPath]
		own := p.Module != nil && p.Module.Path == mod
		if !own && !isDep {
			continue
		}
		if !isDep {
			np = p.ImportPath
			if p.Name == "main" {
				rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mod), "/")
				if rel == "" {
					np = mod + "/zzmain"
				} else {
					np = mod + "/zzmain_" + strings.ReplaceAll(rel, "/", "_")
				}
			}
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(np, mod), "/")
		w := &weaver{p: p, fset: token.NewFileSet(), rename: rename, exports: exports, out: filepath.Join(*out, rel), newPath: np}
		if plain[p.ImportPath] {
			w.noYield = 1
		}
		w.run()
		n++
	}
	gomod := "module " + mod + "\n\ngo 1.20\n"
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), []byte(gomod), 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("woven %d packages of %s\n", n, mod)
}

type weaver struct {
	p       *listPkg
	fset    *token.FileSet
	rename  map[string]string
	exports map[string]string
	out     string
	newPath string
	info    *types.Info
	pkg     *types.Package
	uniq    int
	noYield int

	// per file
	file    *ast.File
	imports map[string]string // import path -> local name
	extra   map[string]string // added imports
	initFns []string
}

func (w *weaver) tmp(s string) string {
	w.uniq++
	return "zz" + s + strconv.Itoa(w.uniq)
}

type lookup func(string) (io.ReadCloser, error)

func (w *weaver) run() {
	var files []*ast.File
	var names []string
	sort.Strings(w.p.GoFiles)
	for _, f := range w.p.GoFiles {
		af, err := parser.ParseFile(w.fset, filepath.Join(w.p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		names = append(names, f)
	}
	imp := importer.ForCompiler(w.fset, "gc", func(path string) (io.ReadCloser, error) {
		e := w.exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	w.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check(w.p.ImportPath, w.fset, files, w.info)
	if err != nil {
		die("type check: %v", err)
	}
	w.pkg = pkg

	// initialisation order
	type initRef struct {
		fn   string
		file int
	}
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if pos >= f.FileStart && pos <= f.FileEnd {
				return i
			}
		}
		die("position without a file")
		return -1
	}
	initsByFile := make([][]*types.Initializer, len(files))
	initName := map[*types.Initializer]string{}
	var order []string
	for k, in := range w.info.InitOrder {
		fi := fileOf(in.Rhs.Pos())
		initsByFile[fi] = append(initsByFile[fi], in)
		name := fmt.Sprintf("zzvar%d", k)
		initName[in] = name
		order = append(order, name)
	}
	var zeros []string
	var initFuncs []string
	if err := os.MkdirAll(w.out, 0755); err != nil {
		die("%v", err)
	}
	pkgName := w.p.Name
	if pkgName == "main" {
		pkgName = "zzmain"
	}
	for i, f := range files {
		w.file = f
		w.imports = map[string]string{}
		w.extra = map[string]string{}
		for _, s := range f.Imports {
			path, _ := strconv.Unquote(s.Path.Value)
			local := ""
			if s.Name != nil {
				local = s.Name.Name
			} else if o := w.info.Implicits[s]; o != nil {
				local = o.Name()
			}
			if local != "_" && local != "." {
				w.imports[path] = local
			}
			np := path
			if r, ok := w.rename[path]; ok {
				np = r
			} else if shims[path] {
				np = shimRoot + path
			}
			s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}
			if np != path && s.Name == nil {
				s.Name = ast.NewIdent(local)
			}
			s.EndPos = token.NoPos
		}
		usesUnsafe := w.imports["unsafe"] != ""
		var decls []ast.Decl
		var tail []ast.Decl
		var importDecls []ast.Decl
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					importDecls = append(importDecls, d)
					continue
				}
				if d.Tok != token.VAR {
					decls = append(decls, d)
					continue
				}
				for _, sp := range d.Specs {
					vs := sp.(*ast.ValueSpec)
					for _, nm := range vs.Names {
						o := w.info.Defs[nm]
						if nm.Name == "_" || o == nil {
							continue
						}
						var te ast.Expr
						if vs.Type != nil {
							te = vs.Type
						} else {
							te = w.typeExpr(o.Type())
						}
						decls = append(decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(nm.Name)}, Type: te}}})
						zeros = append(zeros, nm.Name)
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					nn := fmt.Sprintf("zzinit%d_%d", i, len(initFuncs))
					initFuncs = append(initFuncs, nn)
					d.Name = ast.NewIdent(nn)
				}
				if w.p.Name == "main" && d.Recv == nil && d.Name.Name == "main" {
					d.Name = ast.NewIdent("Main")
				}
				if d.Body != nil {
					u := 0
					if usesUnsafe && mentionsUnsafe(d.Body) {
						u = 1
					}
					w.noYield += u
					d.Body = w.block(d.Body)
					w.noYield -= u
				}
				d.Doc = nil
				decls = append(decls, d)
			default:
				decls = append(decls, d)
			}
		}
		for _, in := range initsByFile[i] {
			var lhs []ast.Expr
			for _, v := range in.Lhs {
				lhs = append(lhs, ast.NewIdent(v.Name()))
			}
			if len(lhs) == 0 {
				lhs = []ast.Expr{ast.NewIdent("_")}
			}
			rhs := in.Rhs
			st := &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}
			if len(lhs) == 1 {
				if id := lhs[0].(*ast.Ident); id.Name == "_" && isNilish(w.info.Types[rhs]) {
					// var _ I = nil: nothing to run
					tail = append(tail, fn(initName[in], nil))
					continue
				}
			}
			tail = append(tail, fn(initName[in], w.stmt(st)))
		}
		// imports
		specs := []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("zzsim"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath)}}}
		var ex []string
		for p := range w.extra {
			ex = append(ex, p)
		}
		sort.Strings(ex)
		for _, p := range ex {
			np := p
			if r, ok := w.rename[p]; ok {
				np = r
			} else if shims[p] {
				np = shimRoot + p
			}
			specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(w.extra[p]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}})
		}
		var all []ast.Decl
		all = append(all, importDecls...)
		all = append(all, &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 1})
		all = append(all, decls...)
		all = append(all, tail...)
		all = append(all, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel("zzsim", "Y")}}}})
		// imports that only initialisers of removed declarations used stay used
		for _, s := range f.Imports {
			p, _ := strconv.Unquote(s.Path.Value)
			_ = p
		}
		f.Decls = all
		f.Name = ast.NewIdent(pkgName)
		f.Comments = nil
		f.Doc = nil
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), f); err != nil {
			die("print %s: %v", names[i], err)
		}
		if err := os.WriteFile(filepath.Join(w.out, "zw_"+names[i]), b.Bytes(), 0644); err != nil {
			die("%v", err)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport zzsim %q\n\nfunc init() { zzsim.RegisterReset(%q, SimReset) }\n\n", pkgName, simPath, w.newPath)
	b.WriteString("// SimReset puts the package in the state it has when a process starts.\nfunc SimReset() {\n")
	for _, z := range zeros {
		fmt.Fprintf(&b, "\tzzsim.Zero(&%s)\n", z)
	}
	for _, o := range order {
		fmt.Fprintf(&b, "\t%s()\n", o)
	}
	for _, o := range initFuncs {
		fmt.Fprintf(&b, "\t%s()\n", o)
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(w.out, "zz_reset.go"), []byte(b.String()), 0644); err != nil {
		die("%v", err)
	}
}

func isNilish(tv types.TypeAndValue) bool { return tv.IsNil() || tv.Value != nil }

func fn(name string, body []ast.Stmt) ast.Decl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func mentionsUnsafe(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if s, ok := x.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == "unsafe" {
				found = true
			}
		}
		return !found
	})
	return found
}

// typeExpr spells a type in the current file.
func (w *weaver) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == w.pkg {
			return ""
		}
		if n, ok := w.imports[p.Path()]; ok && n != "" {
			return n
		}
		n := w.extra[p.Path()]
		if n == "" {
			n = "zzimp" + strconv.Itoa(len(w.extra)) + "_" + p.Name()
			w.extra[p.Path()] = n
		}
		return n
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		die("cannot spell type %s: %v", s, err)
	}
	stripPos(e)
	return e
}

func stripPos(n ast.Node) {}

func sel(x, s string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(s)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func simCall(name string, a ...ast.Expr) *ast.CallExpr { return call(sel("zzsim", name), a...) }
func id(s string) *ast.Ident                           { return ast.NewIdent(s) }
func define(n string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}
func intLit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func (w *weaver) yield() ast.Stmt { return &ast.ExprStmt{X: simCall("Y")} }

func (w *weaver) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: w.list(b.List)}
}

func (w *weaver) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if w.noYield == 0 {
			switch s.(type) {
			case *ast.EmptyStmt:
			default:
				out = append(out, w.yield())
			}
		}
		out = append(out, w.stmt(s)...)
	}
	return out
}

func (w *weaver) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := w.simple(s)
	return r
}

// simple rewrites a simple statement to one simple statement.
func (w *weaver) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				return &ast.AssignStmt{Lhs: w.exprs(s.Lhs), Tok: s.Tok, Rhs: []ast.Expr{simCall("Recv2", w.expr(u.X))}}
			}
		}
		return &ast.AssignStmt{Lhs: w.exprs(s.Lhs), Tok: s.Tok, Rhs: w.exprs(s.Rhs)}
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: w.expr(s.X)}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(simCall("SendTo", w.expr(s.Chan)), w.expr(s.Value))}
	case *ast.IncDecStmt:
		return &ast.IncDecStmt{X: w.expr(s.X), Tok: s.Tok}
	case *ast.EmptyStmt:
		return &ast.EmptyStmt{Implicit: true}
	}
	die("%s: unexpected simple statement %T", w.fset.Position(s.Pos()), s)
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// shared reports whether e may denote memory another goroutine can see.
func (w *weaver) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		o := w.info.Uses[e]
		v, ok := o.(*types.Var)
		return ok && v.Parent() == w.pkg.Scope()
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	}
	return false
}

func (w *weaver) isMapIndex(e ast.Expr) bool {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return false
	}
	_, m := w.info.Types[ix.X].Type.Underlying().(*types.Map)
	return m
}

func hasCall(e ast.Expr) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			f = true
		case *ast.UnaryExpr:
			f = f || n.Op == token.ARROW
		}
		return !f
	})
	return f
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// rmw splits x op= y and x++ on shared memory into load, yield, store.
func (w *weaver) rmw(x ast.Expr, op token.Token, y ast.Expr) []ast.Stmt {
	t := w.tmp("t")
	if w.isMapIndex(x) {
		if hasCall(x) {
			return nil
		}
		xe := w.expr(x)
		return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
			define(t, xe), w.yield(),
			&ast.AssignStmt{Lhs: []ast.Expr{w.expr(x)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: id(t), Op: op, Y: &ast.ParenExpr{X: y}}}},
		}}}
	}
	p := w.tmp("p")
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
		define(p, &ast.UnaryExpr{Op: token.AND, X: w.expr(x)}),
		define(t, &ast.StarExpr{X: id(p)}),
		w.yield(),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: id(p)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: id(t), Op: op, Y: &ast.ParenExpr{X: y}}}},
	}}}
}

func (w *weaver) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		if w.noYield == 0 && len(s.Lhs) == 1 && len(s.Rhs) == 1 && w.shared(s.Lhs[0]) {
			if op, ok := opOf[s.Tok]; ok && op != token.SHL && op != token.SHR && !hasCall(s.Rhs[0]) {
				if r := w.rmw(s.Lhs[0], op, w.expr(s.Rhs[0])); r != nil {
					return r
				}
			}
			if s.Tok == token.ASSIGN && !hasCall(s.Lhs[0]) {
				tv := w.info.Types[s.Rhs[0]]
				lt := w.info.Types[s.Lhs[0]].Type
				if lt != nil && tv.Type != nil && tv.Value == nil && !tv.IsNil() && types.Identical(tv.Type, lt) && refers(s.Rhs[0]) {
					t := w.tmp("t")
					return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
						define(t, w.expr(s.Rhs[0])), w.yield(),
						&ast.AssignStmt{Lhs: w.exprs(s.Lhs), Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}},
					}}}
				}
			}
		}
		return []ast.Stmt{w.simple(s)}
	case *ast.IncDecStmt:
		if w.noYield == 0 && w.shared(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			if r := w.rmw(s.X, op, intLit(1)); r != nil {
				return r
			}
		}
		return []ast.Stmt{w.simple(s)}
	case *ast.ExprStmt, *ast.SendStmt, *ast.EmptyStmt:
		return []ast.Stmt{w.simple(s)}
	case *ast.BlockStmt:
		return []ast.Stmt{w.block(s)}
	case *ast.DeclStmt:
		g := s.Decl.(*ast.GenDecl)
		if g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						vs.Values = []ast.Expr{simCall("Recv2", w.expr(u.X))}
						continue
					}
				}
				vs.Values = w.exprs(vs.Values)
			}
		}
		return []ast.Stmt{s}
	case *ast.GoStmt:
		return w.goStmt(s)
	case *ast.DeferStmt:
		return []ast.Stmt{&ast.DeferStmt{Call: w.expr(s.Call).(*ast.CallExpr)}}
	case *ast.ReturnStmt:
		if len(s.Results) == 1 {
			// return <-ch in a two-result function is not Go; one value only
		}
		return []ast.Stmt{&ast.ReturnStmt{Results: w.exprs(s.Results)}}
	case *ast.BranchStmt:
		return []ast.Stmt{&ast.BranchStmt{Tok: s.Tok, Label: s.Label}}
	case *ast.IfStmt:
		n := &ast.IfStmt{Init: w.one(s.Init), Cond: w.expr(s.Cond), Body: w.block(s.Body)}
		if s.Else != nil {
			e := w.stmt(s.Else)
			if len(e) != 1 {
				n.Else = &ast.BlockStmt{List: e}
			} else {
				n.Else = e[0]
			}
		}
		return []ast.Stmt{n}
	case *ast.ForStmt:
		n := &ast.ForStmt{Init: w.one(s.Init), Post: w.one(s.Post), Body: w.block(s.Body)}
		if s.Cond != nil {
			n.Cond = w.expr(s.Cond)
		}
		if w.noYield == 0 && len(n.Body.List) == 0 {
			n.Body.List = append(n.Body.List, w.yield())
		}
		return []ast.Stmt{n}
	case *ast.RangeStmt:
		pre, core := w.rangeStmt(s)
		return wrap(pre, core)
	case *ast.SwitchStmt:
		n := &ast.SwitchStmt{Init: w.one(s.Init), Body: &ast.BlockStmt{}}
		if s.Tag != nil {
			n.Tag = w.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: w.exprs(cc.List), Body: w.list(cc.Body)})
		}
		return []ast.Stmt{n}
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Init: w.one(s.Init), Assign: w.one(s.Assign), Body: &ast.BlockStmt{}}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: cc.List, Body: w.list(cc.Body)})
		}
		return []ast.Stmt{n}
	case *ast.SelectStmt:
		pre, core := w.selectStmt(s)
		return wrap(pre, core)
	case *ast.LabeledStmt:
		var pre []ast.Stmt
		var core []ast.Stmt
		switch x := s.Stmt.(type) {
		case *ast.RangeStmt:
			p, c := w.rangeStmt(x)
			pre, core = p, []ast.Stmt{c}
		case *ast.SelectStmt:
			p, c := w.selectStmt(x)
			pre, core = p, []ast.Stmt{c}
		default:
			core = w.stmt(s.Stmt)
		}
		if len(core) == 0 {
			core = []ast.Stmt{&ast.EmptyStmt{Implicit: true}}
		}
		core[0] = &ast.LabeledStmt{Label: s.Label, Stmt: core[0]}
		if len(pre) == 0 {
			return core
		}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, core...)}}
	}
	die("%s: unexpected statement %T", w.fset.Position(s.Pos()), s)
	return nil
}

func refers(e ast.Expr) bool {
	switch unparen(e).(type) {
	case *ast.FuncLit, *ast.BasicLit:
		return false
	}
	return true
}

func wrap(pre []ast.Stmt, core ast.Stmt) []ast.Stmt {
	if len(pre) == 0 {
		return []ast.Stmt{core}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, core)}}
}

func (w *weaver) goStmt(s *ast.GoStmt) []ast.Stmt {
	c := s.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results == nil {
		return []ast.Stmt{&ast.ExprStmt{X: simCall("Go", w.expr(fl))}}
	}
	if tv := w.info.Types[c.Fun]; tv.IsBuiltin() {
		// go close(ch) and the like: arguments are evaluated now
		var pre []ast.Stmt
		var args []ast.Expr
		for _, a := range c.Args {
			t := w.tmp("a")
			pre = append(pre, define(t, w.expr(a)))
			args = append(args, id(t))
		}
		inner := w.rewriteBuiltin(c, args)
		pre = append(pre, &ast.ExprStmt{X: simCall("Go", lit(&ast.ExprStmt{X: inner}))})
		return []ast.Stmt{&ast.BlockStmt{List: pre}}
	}
	var pre []ast.Stmt
	fe := w.expr(c.Fun)
	direct := false
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		_, direct = w.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if x, ok := f.X.(*ast.Ident); ok {
			if _, isPkg := w.info.Uses[x].(*types.PkgName); isPkg {
				_, direct = w.info.Uses[f.Sel].(*types.Func)
			}
		}
	}
	if !direct {
		t := w.tmp("f")
		pre = append(pre, define(t, fe))
		fe = id(t)
	}
	sig, _ := w.info.Types[c.Fun].Type.Underlying().(*types.Signature)
	var args []ast.Expr
	for i, a := range c.Args {
		tv := w.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, w.expr(a))
			continue
		}
		_ = sig
		_ = i
		t := w.tmp("a")
		pre = append(pre, define(t, w.expr(a)))
		args = append(args, id(t))
	}
	inner := &ast.CallExpr{Fun: fe, Args: args}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	pre = append(pre, &ast.ExprStmt{X: simCall("Go", lit(&ast.ExprStmt{X: inner}))})
	if len(pre) == 1 {
		return pre
	}
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func lit(s ...ast.Stmt) ast.Expr {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: s}}
}

func (w *weaver) rewriteBuiltin(c *ast.CallExpr, args []ast.Expr) ast.Expr {
	if i, ok := unparen(c.Fun).(*ast.Ident); ok && i.Name == "close" {
		return simCall("Close", args...)
	}
	return &ast.CallExpr{Fun: c.Fun, Args: args, Ellipsis: c.Ellipsis}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (w *weaver) rangeStmt(s *ast.RangeStmt) (pre []ast.Stmt, core ast.Stmt) {
	t := w.info.Types[s.X].Type.Underlying()
	switch t.(type) {
	case *types.Chan:
		c, ok := w.tmp("c"), w.tmp("ok")
		pre = append(pre, define(c, w.expr(s.X)))
		body := w.block(s.Body)
		var hd []ast.Stmt
		hd = append(hd, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(ok)}, Type: id("bool")}}}})
		var lhs ast.Expr = id("_")
		if !blank(s.Key) {
			if s.Tok == token.DEFINE {
				nm := s.Key.(*ast.Ident).Name
				pre = append(pre, define(nm, simCall("ElemZero", id(c))))
				lhs = id(nm)
			} else {
				lhs = w.expr(s.Key)
			}
		}
		hd = append(hd, &ast.AssignStmt{Lhs: []ast.Expr{lhs, id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{simCall("Recv2", id(c))}})
		hd = append(hd, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		return pre, &ast.ForStmt{Body: &ast.BlockStmt{List: append(hd, body.List...)}}
	case *types.Map:
		m, k0 := w.tmp("m"), w.tmp("k")
		pre = append(pre, define(m, w.expr(s.X)))
		body := w.block(s.Body)
		ok := w.tmp("ok")
		var kl, vl ast.Expr = nil, id("_")
		if s.Tok == token.DEFINE {
			if !blank(s.Key) {
				nm := s.Key.(*ast.Ident).Name
				pre = append(pre, define(nm, simCall("MapKeyZero", id(m))))
				kl = id(nm)
			}
			if !blank(s.Value) {
				nm := s.Value.(*ast.Ident).Name
				pre = append(pre, define(nm, simCall("MapValZero", id(m))))
				vl = id(nm)
			}
		} else {
			if !blank(s.Key) {
				kl = w.expr(s.Key)
			}
			if !blank(s.Value) {
				vl = w.expr(s.Value)
			}
		}
		var hd []ast.Stmt
		if w.noYield == 0 {
			hd = append(hd, w.yield())
		}
		hd = append(hd, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(ok)}, Type: id("bool")}}}})
		hd = append(hd, &ast.AssignStmt{Lhs: []ast.Expr{vl, id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.IndexExpr{X: id(m), Index: id(k0)}}})
		hd = append(hd, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if kl != nil {
			hd = append(hd, &ast.AssignStmt{Lhs: []ast.Expr{kl}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(k0)}})
		}
		return pre, &ast.RangeStmt{Key: id("_"), Value: id(k0), Tok: token.DEFINE, X: simCall("MapKeys", id(m)), Body: &ast.BlockStmt{List: append(hd, body.List...)}}
	}
	n := &ast.RangeStmt{Key: s.Key, Value: s.Value, Tok: s.Tok, X: w.expr(s.X), Body: w.block(s.Body)}
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			n.Key = w.expr(s.Key)
		}
		if s.Value != nil {
			n.Value = w.expr(s.Value)
		}
	}
	if w.noYield == 0 && len(n.Body.List) == 0 {
		n.Body.List = append(n.Body.List, w.yield())
	}
	return nil, n
}

func (w *weaver) selectStmt(s *ast.SelectStmt) (pre []ast.Stmt, core ast.Stmt) {
	if len(s.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: simCall("BlockForever")}}, &ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := false
	var args []ast.Expr
	n := 0
	var clauses []*ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			clauses = append(clauses, &ast.CaseClause{Body: w.list(cc.Body)})
			continue
		}
		nm := w.tmp("s")
		var head []ast.Stmt
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(nm, call(simCall("CaseSend", w.expr(x.Chan)), w.expr(x.Value))))
		case *ast.ExprStmt:
			u := unparen(x.X).(*ast.UnaryExpr)
			pre = append(pre, define(nm, simCall("CaseRecv", w.expr(u.X))))
		case *ast.AssignStmt:
			u := unparen(x.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, define(nm, simCall("CaseRecv", w.expr(u.X))))
			rhs := []ast.Expr{sel(nm, "Val")}
			if len(x.Lhs) == 2 {
				rhs = append(rhs, sel(nm, "Ok"))
			}
			allBlank := true
			for _, l := range x.Lhs {
				allBlank = allBlank && blank(l)
			}
			tok := x.Tok
			if allBlank {
				tok = token.ASSIGN
			}
			head = append(head, &ast.AssignStmt{Lhs: w.exprs(x.Lhs), Tok: tok, Rhs: rhs})
		}
		args = append(args, id(nm))
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{intLit(n)}, Body: append(head, w.list(cc.Body)...)})
		n++
	}
	if !hasDef {
		clauses[len(clauses)-1].List = nil
	}
	// default last
	for _, c := range clauses {
		sw.Body.List = append(sw.Body.List, c)
	}
	b := "false"
	if hasDef {
		b = "true"
	}
	sw.Tag = simCall("Select", append([]ast.Expr{id(b)}, args...)...)
	return pre, sw
}

func (w *weaver) exprs(l []ast.Expr) []ast.Expr {
	if l == nil {
		return nil
	}
	out := make([]ast.Expr, len(l))
	for i, e := range l {
		out[i] = w.expr(e)
	}
	return out
}

func (w *weaver) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		return &ast.Ident{Name: e.Name}
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: e.Kind, Value: e.Value}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: w.expr(e.X)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: w.expr(e.X), Sel: id(e.Sel.Name)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: w.expr(e.X), Index: w.expr(e.Index)}
	case *ast.IndexListExpr:
		return &ast.IndexListExpr{X: w.expr(e.X), Indices: w.exprs(e.Indices)}
	case *ast.SliceExpr:
		return &ast.SliceExpr{X: w.expr(e.X), Low: w.expr(e.Low), High: w.expr(e.High), Max: w.expr(e.Max), Slice3: e.Slice3}
	case *ast.StarExpr:
		return &ast.StarExpr{X: w.expr(e.X)}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: w.expr(e.X), Type: e.Type}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: w.expr(e.X), Op: e.Op, Y: w.expr(e.Y)}
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: w.expr(e.Key), Value: w.expr(e.Value)}
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return simCall("Recv", w.expr(e.X))
		}
		return &ast.UnaryExpr{Op: e.Op, X: w.expr(e.X)}
	case *ast.CompositeLit:
		return &ast.CompositeLit{Type: e.Type, Elts: w.exprs(e.Elts)}
	case *ast.FuncLit:
		u := 0
		if w.imports["unsafe"] != "" && mentionsUnsafe(e.Body) {
			u = 1
		}
		w.noYield += u
		b := w.block(e.Body)
		w.noYield -= u
		return &ast.FuncLit{Type: e.Type, Body: b}
	case *ast.CallExpr:
		if tv, ok := w.info.Types[e.Fun]; ok && tv.IsBuiltin() {
			if i, ok := unparen(e.Fun).(*ast.Ident); ok && i.Name == "close" {
				return simCall("Close", w.exprs(e.Args)...)
			}
			if i, ok := unparen(e.Fun).(*ast.Ident); ok && (i.Name == "make" || i.Name == "new") {
				args := []ast.Expr{e.Args[0]}
				args = append(args, w.exprs(e.Args[1:])...)
				return &ast.CallExpr{Fun: e.Fun, Args: args}
			}
		}
		n := &ast.CallExpr{Fun: w.expr(e.Fun), Args: w.exprs(e.Args)}
		if e.Ellipsis.IsValid() {
			n.Ellipsis = 1
		}
		return n
	case *ast.ArrayType, *ast.ChanType, *ast.FuncType, *ast.InterfaceType, *ast.MapType, *ast.StructType, *ast.Ellipsis:
		return e
	}
	die("%s: unexpected expression %T", w.fset.Position(e.Pos()), e)
	return nil
}
