package main

// Source-to-source instrumentation of the program under check. Judges the code
// by its types, not by names: every channel operation, goroutine start, select,
// lock, context and range over a map goes through the controlled scheduler
// (package vsched), every file operation through the recording and fault
// injecting file layer (package vos).

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
)

//go:embed shim/vsched.go.txt
var shimSched string

//go:embed shim/race_on.go.txt
var shimRaceOn string

//go:embed shim/race_off.go.txt
var shimRaceOff string

//go:embed shim/vos.go.txt
var shimVos string

type listedPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	Module                        *struct{ Path, GoVersion string }
	Standard                      bool
}

type instrumenter struct {
	fset    *token.FileSet
	info    *types.Info
	mod     string
	osPkg   *types.Package
	quiet   bool // the file is the message log
	recv2   map[ast.Node]bool
	n       int
	usedS   bool
	usedO   bool
	problem error
}

// Instrument writes an instrumented copy of the program to dst. The pkgs of the
// program other than the root one (there are none today) are copied as they are.
type program struct {
	root  *listedPkg
	fset  *token.FileSet
	files []*ast.File
	info  *types.Info
	pkg   *types.Package
	osPkg *types.Package
}

// loadProgram parses and type checks the main package in src.
func (e *Env) loadProgram(src string) (*program, error) {
	c := exec.Command("go", "list", "-buildvcs=false", "-export", "-deps", "-json", ".")
	c.Dir = src
	c.Env = goEnv(e.gocache())
	var se bytes.Buffer
	c.Stderr = &se
	outp, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, se.String())
	}
	dec := json.NewDecoder(bytes.NewReader(outp))
	exports := map[string]string{}
	var root *listedPkg
	for {
		p := new(listedPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard {
			root = p
		}
	}
	if root == nil || root.Module == nil {
		return nil, fmt.Errorf("go list: no root package")
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range root.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(root.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	}
	imp := importer.ForCompiler(fset, "gc", lookup)
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, GoVersion: "go" + root.Module.GoVersion}
	pkg, err := conf.Check(root.ImportPath, fset, files, info)
	if err != nil {
		return nil, fmt.Errorf("type check: %v", err)
	}
	osPkg, err := imp.Import("os")
	if err != nil {
		return nil, err
	}
	return &program{root, fset, files, info, pkg, osPkg}, nil
}

func (e *Env) Instrument(src, dst string) error {
	pr, err := e.loadProgram(src)
	if err != nil {
		return err
	}
	root, fset, files, info, osPkg := pr.root, pr.fset, pr.files, pr.info, pr.osPkg
	if err := os.MkdirAll(filepath.Join(dst, "vsched"), 0o777); err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(dst, "vos"), 0o777)
	for i, af := range files {
		in := &instrumenter{fset: fset, info: info, mod: root.Module.Path, osPkg: osPkg, recv2: map[ast.Node]bool{}}
		in.quiet = in.definesLogger(af)
		in.file(af)
		if in.problem != nil {
			return in.problem
		}
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, fset, af); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, filepath.Base(root.GoFiles[i])), b.Bytes(), 0o666); err != nil {
			return err
		}
	}
	w := func(name, s string) {
		if err := os.WriteFile(filepath.Join(dst, name), []byte(s), 0o666); err != nil {
			fatal("%v", err)
		}
	}
	w("go.mod", "module "+root.Module.Path+"\n\ngo "+root.Module.GoVersion+"\n")
	w("vsched/vsched.go", shimSched)
	w("vsched/race_on.go", shimRaceOn)
	w("vsched/race_off.go", shimRaceOff)
	vosSrc := strings.ReplaceAll(shimVos, "VSCHEDPATH", root.Module.Path)
	w("vos/vos.go", vosSrc)
	w("vos/gen.go", genVos(osPkg, vosSrc, "vos"))
	return nil
}

// genVos re-exports everything of package os that vos does not define itself.
func genVos(osPkg *types.Package, own, name string) string {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, "vos.go", own, 0)
	if err != nil {
		fatal("vos: %v", err)
	}
	have := map[string]bool{}
	meth := map[string]bool{}
	for _, d := range af.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil {
				have[x.Name.Name] = true
			} else {
				meth[x.Name.Name] = true
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.TypeSpec:
					have[y.Name.Name] = true
				case *ast.ValueSpec:
					for _, n := range y.Names {
						have[n.Name] = true
					}
				}
			}
		}
	}
	imports := map[string]bool{"os": true}
	var b strings.Builder
	sc := osPkg.Scope()
	names := sc.Names()
	sort.Strings(names)
	for _, n := range names {
		o := sc.Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = os.%s\n", n, n)
		case *types.Var, *types.Func:
			fmt.Fprintf(&b, "var %s = os.%s\n", n, n)
		case *types.TypeName:
			fmt.Fprintf(&b, "type %s = os.%s\n", n, n)
		}
	}
	// methods of File not overridden: delegate
	ft := sc.Lookup("File").Type()
	ms := types.NewMethodSet(types.NewPointer(ft))
	q := func(p *types.Package) string { imports[p.Path()] = true; return p.Name() }
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		if !f.Exported() || meth[f.Name()] {
			continue
		}
		sig := f.Type().(*types.Signature)
		ps, as, rs := []string{}, []string{}, []string{}
		for j := 0; j < sig.Params().Len(); j++ {
			ps = append(ps, fmt.Sprintf("a%d %s", j, types.TypeString(sig.Params().At(j).Type(), q)))
			as = append(as, fmt.Sprintf("a%d", j))
		}
		for j := 0; j < sig.Results().Len(); j++ {
			rs = append(rs, types.TypeString(sig.Results().At(j).Type(), q))
		}
		ret := "return "
		if len(rs) == 0 {
			ret = ""
		}
		fmt.Fprintf(&b, "func (f *File) %s(%s) (%s) { %sf.F.%s(%s) }\n", f.Name(), strings.Join(ps, ", "), strings.Join(rs, ", "), ret, f.Name(), strings.Join(as, ", "))
	}
	hd := "package " + name + "\n\nimport (\n"
	for p := range imports {
		hd += fmt.Sprintf("\t%q\n", p)
	}
	return hd + ")\n\n" + b.String()
}

// definesLogger: the file declares the type of the message log (a struct with a
// lock whose methods print to the standard output).
func (in *instrumenter) definesLogger(af *ast.File) bool {
	yes := false
	ast.Inspect(af, func(n ast.Node) bool {
		if fd, ok := n.(*ast.FuncDecl); ok && fd.Recv != nil && fd.Name.Name == "Printf" {
			yes = true
		}
		return true
	})
	return yes
}

func (in *instrumenter) isChan(x ast.Expr) bool {
	tv, ok := in.info.Types[x]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (in *instrumenter) isMap(x ast.Expr) bool {
	tv, ok := in.info.Types[x]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

func (in *instrumenter) site(n ast.Node) ast.Expr {
	p := in.fset.Position(n.Pos())
	return strLit(fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
}

func strLit(s string) ast.Expr {
	return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", s)}
}

func (in *instrumenter) vs(name string) ast.Expr {
	in.usedS = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (in *instrumenter) fresh(p string) string { in.n++; return fmt.Sprintf("vs_%s%d", p, in.n) }

func unparen(x ast.Expr) ast.Expr {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			return x
		}
		x = p.X
	}
}

func (in *instrumenter) builtin(x ast.Expr, name string) bool {
	id, ok := unparen(x).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.info.Uses[id].(*types.Builtin)
	return ok
}

// pkgSel: x is pkg.Name for an imported package.
func (in *instrumenter) pkgSel(x ast.Expr) (string, string) {
	se, ok := x.(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	id, ok := se.X.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pn.Imported().Path(), se.Sel.Name
}

func (in *instrumenter) file(af *ast.File) {
	in.walk(reflect.ValueOf(af))
	if in.problem != nil {
		return
	}
	// main
	if af.Name.Name == "main" {
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				fd.Name.Name = "vs_main"
				in.usedS = true
				af.Decls = append(af.Decls, &ast.FuncDecl{Name: ast.NewIdent("main"), Type: &ast.FuncType{Params: &ast.FieldList{}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(in.vs("Main"), ast.NewIdent("vs_main"))}}}})
				break
			}
		}
	}
	ours := []string{}
	if in.usedS {
		ours = append(ours, in.mod+"/vsched")
	}
	if in.usedO {
		ours = append(ours, in.mod+"/vos")
	}
	fixImports(af, ours)
}

// fixImports drops imports no longer used and adds ours.
func fixImports(af *ast.File, ours []string) {
	used := map[string]bool{}
	ast.Inspect(af, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	add := []ast.Spec{}
	for _, p := range ours {
		add = append(add, &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", p)}})
	}
	for _, d := range af.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else {
				p := strings.Trim(is.Path.Value, "\"`")
				name = p[strings.LastIndex(p, "/")+1:]
			}
			if name == "_" || name == "." || used[name] {
				add = append(add, &ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}})
			}
		}
	}
	if len(add) > 0 {
		gd := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: add, Rparen: 1}
		decls = append([]ast.Decl{gd}, decls...)
	}
	af.Decls = decls
	af.Imports = nil
	af.Comments = nil
}

// walk rewrites the tree bottom up.
func (in *instrumenter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.Comment:
			return
		}
		in.pre(v.Interface())
		in.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		in.walk(v.Elem())
		if v.CanSet() {
			if n, ok := v.Interface().(ast.Node); ok {
				if r := in.post(n); r != nil && r != n {
					v.Set(reflect.ValueOf(r))
				}
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			in.walk(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			in.walk(v.Index(i))
		}
	}
}

func isRecv(x ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(x).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// pre marks two-value receives and takes select clauses apart before their
// communication is rewritten.
func (in *instrumenter) pre(n any) {
	switch x := n.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := isRecv(x.Rhs[0]); u != nil {
				in.recv2[u] = true
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u := isRecv(x.Values[0]); u != nil {
				in.recv2[u] = true
			}
		}
	case *ast.SelectStmt:
		in.preSelect(x)
	}
}

func (in *instrumenter) preSelect(x *ast.SelectStmt) {
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		switch c := cc.Comm.(type) {
		case nil:
		case *ast.SendStmt:
			// kept as a marker call: vs_send(ch, v)
			cc.Comm = &ast.ExprStmt{X: call(ast.NewIdent("vs_send"), c.Chan, c.Value)}
		case *ast.ExprStmt:
			u := isRecv(c.X)
			cc.Comm = &ast.ExprStmt{X: call(ast.NewIdent("vs_recv"), u.X)}
		case *ast.AssignStmt:
			u := isRecv(c.Rhs[0])
			tok := "vs_recv_assign"
			if c.Tok == token.DEFINE {
				tok = "vs_recv_define"
			}
			cc.Comm = &ast.ExprStmt{X: call(ast.NewIdent(tok), append([]ast.Expr{u.X}, c.Lhs...)...)}
		}
	}
}

func (in *instrumenter) post(n ast.Node) ast.Node {
	switch x := n.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(in.vs("Send"), x.Chan), x.Value)}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			if in.recv2[x] {
				return call(in.vs("Recv2"), x.X)
			}
			return call(in.vs("Recv"), x.X)
		}
	case *ast.CallExpr:
		switch {
		case in.builtin(x.Fun, "close"):
			return call(in.vs("Close"), x.Args...)
		case in.builtin(x.Fun, "len") && len(x.Args) == 1 && in.isChan(x.Args[0]):
			return call(in.vs("Len"), x.Args...)
		case in.builtin(x.Fun, "make"):
			if tv, ok := in.info.Types[x]; ok && tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Chan); ok {
					return call(in.vs("Make"), in.site(x), x)
				}
			}
		}
	case *ast.SelectorExpr:
		p, s := in.pkgSel(x)
		switch p {
		case "sync":
			switch s {
			case "Mutex":
				if in.quiet {
					return in.vs("QuietMutex")
				}
				return in.vs(s)
			case "RWMutex", "WaitGroup", "Once", "Pool":
				return in.vs(s)
			}
		case "reflect":
			if s == "Select" {
				return in.vs("ReflectSelect")
			}
		case "context":
			if s == "WithCancel" {
				return in.vs(s)
			}
		case "runtime":
			switch s {
			case "NumCPU", "GOMAXPROCS", "Gosched":
				return in.vs(s)
			}
		case "time":
			switch s {
			case "Sleep", "After":
				return in.vs(s)
			}
		case "os":
			in.usedO = true
			return &ast.SelectorExpr{X: ast.NewIdent("vos"), Sel: ast.NewIdent(s)}
		case "io/ioutil":
			switch s {
			case "TempFile", "WriteFile", "ReadFile":
				in.usedO = true
				if s == "TempFile" {
					s = "CreateTemp"
				}
				return &ast.SelectorExpr{X: ast.NewIdent("vos"), Sel: ast.NewIdent(s)}
			}
		}
	case *ast.DeferStmt:
		if c, ok := in.post(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.GoStmt:
		if c, ok := in.post(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
		return in.goStmt(x)
	case *ast.RangeStmt:
		if in.isChan(x.X) {
			return in.rangeChan(x)
		}
		if in.isMap(x.X) {
			return in.rangeMap(x)
		}
	case *ast.SelectStmt:
		return in.selectStmt(x)
	}
	return n
}

func define(names []string, vals ...ast.Expr) *ast.AssignStmt {
	l := []ast.Expr{}
	for _, n := range names {
		l = append(l, ast.NewIdent(n))
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: vals}
}

func (in *instrumenter) goStmt(x *ast.GoStmt) ast.Node {
	c := x.Call
	var pre []ast.Stmt
	fn := in.fresh("f")
	pre = append(pre, define([]string{fn}, c.Fun))
	args := []ast.Expr{}
	for _, a := range c.Args {
		tv, ok := in.info.Types[a]
		if ok && (tv.IsNil() || tv.Value != nil) {
			args = append(args, a)
			continue
		}
		an := in.fresh("a")
		pre = append(pre, define([]string{an}, a))
		args = append(args, ast.NewIdent(an))
	}
	ell := token.NoPos
	if c.Ellipsis != token.NoPos {
		ell = 1
	}
	inner := &ast.CallExpr{Fun: ast.NewIdent(fn), Args: args, Ellipsis: ell}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	pre = append(pre, &ast.ExprStmt{X: call(in.vs("Go"), in.site(x), fl)})
	return &ast.BlockStmt{List: pre}
}

func isBlank(x ast.Expr) bool {
	if x == nil {
		return true
	}
	id, ok := x.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *instrumenter) rangeChan(x *ast.RangeStmt) ast.Node {
	chn, okn := in.fresh("c"), in.fresh("ok")
	var body []ast.Stmt
	brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(okn)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
	rc := call(in.vs("Recv2"), ast.NewIdent(chn))
	switch {
	case isBlank(x.Key):
		body = append(body, define([]string{"_", okn}, rc), brk)
	case x.Tok == token.DEFINE:
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key, ast.NewIdent(okn)}, Tok: token.DEFINE, Rhs: []ast.Expr{rc}}, brk)
	default:
		tmp := in.fresh("v")
		body = append(body, define([]string{tmp, okn}, rc), brk, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(tmp)}})
	}
	body = append(body, x.Body)
	return &ast.ForStmt{Init: define([]string{chn}, x.X), Body: &ast.BlockStmt{List: body}}
}

func (in *instrumenter) rangeMap(x *ast.RangeStmt) ast.Node {
	en := in.fresh("e")
	var body []ast.Stmt
	body = append(body, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: call(&ast.SelectorExpr{X: ast.NewIdent(en), Sel: ast.NewIdent("Live")})},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
	set := func(l ast.Expr, r ast.Expr) {
		if !isBlank(l) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: x.Tok, Rhs: []ast.Expr{r}})
		}
	}
	set(x.Key, &ast.SelectorExpr{X: ast.NewIdent(en), Sel: ast.NewIdent("K")})
	set(x.Value, call(&ast.SelectorExpr{X: ast.NewIdent(en), Sel: ast.NewIdent("V")}))
	body = append(body, x.Body)
	return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(en), Tok: token.DEFINE, X: call(in.vs("Entries"), x.X), Body: &ast.BlockStmt{List: body}}
}

func (in *instrumenter) selectStmt(x *ast.SelectStmt) ast.Node {
	sel := in.fresh("s")
	def := "false"
	args := []ast.Expr{nil}
	sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: ast.NewIdent(sel), Sel: ast.NewIdent("I")}, Body: &ast.BlockStmt{}}
	i := 0
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		out := &ast.CaseClause{}
		if cc.Comm == nil {
			def = "true"
			out.Body = cc.Body
			sw.Body.List = append(sw.Body.List, out)
			continue
		}
		out.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}}
		i++
		mk := cc.Comm.(*ast.ExprStmt).X.(*ast.CallExpr)
		kind := mk.Fun.(*ast.Ident).Name
		ch := mk.Args[0]
		if kind == "vs_send" {
			args = append(args, call(call(in.vs("CSend"), ch), mk.Args[1]))
		} else {
			args = append(args, call(in.vs("CRecv"), ch))
			if len(mk.Args) > 1 {
				tok := token.ASSIGN
				if kind == "vs_recv_define" {
					tok = token.DEFINE
				}
				rhs := []ast.Expr{call(in.vs("Got"), ch, ast.NewIdent(sel))}
				if len(mk.Args) > 2 {
					rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(sel), Sel: ast.NewIdent("OK")})
				}
				out.Body = append(out.Body, &ast.AssignStmt{Lhs: mk.Args[1:], Tok: tok, Rhs: rhs})
			}
		}
		out.Body = append(out.Body, cc.Body...)
		sw.Body.List = append(sw.Body.List, out)
	}
	args[0] = ast.NewIdent(def)
	if def == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), strLit("select"))}}})
	}
	sw.Init = define([]string{sel}, call(in.vs("Select"), args...))
	return sw
}
