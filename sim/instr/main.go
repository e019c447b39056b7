// Command instr copies the goslide working tree into a scratch module, with
// every source of nondeterminism routed to the simulator (package simrt) and a
// yield point before every statement.  It reads /repo and never writes to it.
//
//	instr -repo /repo -out DIR
//
// The rewriting follows what the code refers to (resolved with go/types), not
// how it is written, so it applies to any version of the tree that compiles.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const module = "github.com/nlpodyssey/goslide"
const rtPath = module + "/verifsim/simrt"
const rtName = "verifsimrt__"

// seams: what is replaced, by package path.
var seams = map[string]map[string]string{
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep"},
	"math/rand": {
		"Seed": "RandSeed", "Int": "RandInt", "Intn": "RandIntn", "Int31": "RandInt31", "Int31n": "RandInt31n",
		"Int63": "RandInt63", "Int63n": "RandInt63n", "Uint32": "RandUint32", "Uint64": "RandUint64",
		"Float64": "RandFloat64", "Float32": "RandFloat32", "NormFloat64": "RandNormFloat64",
		"ExpFloat64": "RandExpFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Read": "RandRead",
	},
	"math/rand/v2": {
		"Int": "RandInt", "IntN": "RandIntN", "Int64": "RandInt64", "Int64N": "RandInt64N", "Int32": "RandInt32",
		"Int32N": "RandInt32N", "Uint32": "RandUint32", "Uint64": "RandUint64", "Float64": "RandFloat64",
		"Float32": "RandFloat32", "NormFloat64": "RandNormFloat64", "ExpFloat64": "RandExpFloat64",
		"Perm": "RandPerm", "Shuffle": "RandShuffle",
	},
	"crypto/rand":  {"Read": "CryptoRead", "Reader": "CryptoReader"},
	"hash/maphash": {"Seed": "MapHashSeed", "Hash": "MapHash", "MakeSeed": "MakeMapHashSeed", "Bytes": "MapHashBytes", "String": "MapHashString"},
	"os": {
		"Open": "Open", "OpenFile": "OpenFile", "Create": "Create", "ReadFile": "ReadFile", "WriteFile": "WriteFile",
		"Stat": "Stat", "File": "File", "Exit": "Exit", "Args": "Args", "Stdout": "Stdout", "Stderr": "Stderr", "Stdin": "Stdin",
	},
	"io/ioutil": {"ReadFile": "ReadFile", "WriteFile": "WriteFile"},
	"log": {
		"New": "LogNew", "Logger": "Logger", "Default": "LogDefault", "Fatal": "LogFatal", "Fatalf": "LogFatalf",
		"Fatalln": "LogFatalln", "Print": "LogPrint", "Printf": "LogPrintf", "Println": "LogPrintln",
		"Panic": "LogPanic", "Panicf": "LogPanicf", "SetFlags": "LogSetFlags", "SetPrefix": "LogSetPrefix", "SetOutput": "LogSetOutput",
	},
	"fmt":           {"Print": "Print", "Printf": "Printf", "Println": "Println"},
	"runtime/pprof": {"StartCPUProfile": "StartCPUProfile", "StopCPUProfile": "StopCPUProfile", "WriteHeapProfile": "WriteHeapProfile"},
	"runtime":       {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "Gosched": "Gosched"},
	"sync":          {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Pool": "Pool"},
}

// probed: exported functions whose calls the harness can observe.
var probed = map[string]bool{
	"network.New":                                      true,
	"network.Network.ProcessInput":                     true,
	"network.Network.PredictClass":                     true,
	"layer.Layer.QueryActiveNodeAndComputeActivations": true,
	"lsh.LSH.RetrieveRaw":                              true,
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Imports    []string
	Error      *struct{ Err string }
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	if err := run(*repo, *out); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func run(repo, out string) error {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json", "./...")
	cmd.Dir = repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/") {
			pkgs = append(pkgs, p)
		}
	}
	if len(pkgs) == 0 {
		return fmt.Errorf("no packages of %s in %s", module, repo)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, p := range pkgs {
		if err := instrument(fset, imp, p, filepath.Join(out, strings.TrimPrefix(p.ImportPath, module))); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	return nil
}

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	used bool                 // simrt is used in the current file
	left map[types.Object]int // package names: remaining uses
	tmp  int
}

func rt(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent(name)}
}

func instrument(fset *token.FileSet, imp types.Importer, p pkgInfo, dir string) error {
	var files []*ast.File
	for _, f := range p.GoFiles {
		// no comments: they could be moved by the insertions, and none matters here
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, a)
	}
	info := &types.Info{
		Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Types: map[ast.Expr]types.TypeAndValue{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.21"}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, pkg: tp, left: map[types.Object]int{}}
		if err := r.file(f); err != nil {
			return fmt.Errorf("%s: %v", p.GoFiles[i], err)
		}
		if p.Name == "main" {
			f.Name.Name = "goslide"
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
					fd.Name.Name = "Main"
				}
			}
		}
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, f); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (r *rewriter) file(f *ast.File) error {
	f.Comments = nil
	f.Doc = nil
	for id, o := range r.info.Uses {
		if _, ok := o.(*types.PkgName); ok && id.Pos() >= f.FileStart && id.Pos() < f.FileEnd {
			r.left[o]++
		}
	}
	for i := range f.Decls {
		switch d := f.Decls[i].(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			r.walk(d)
		case *ast.GenDecl:
			d.Doc = nil
			r.walk(d)
		}
	}
	// wrappers
	var extra []ast.Decl
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if name := r.probeName(fd); name != "" {
			extra = append(extra, r.wrap(fd, name))
		}
	}
	f.Decls = append(f.Decls, extra...)

	// imports
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			is.Doc, is.Comment = nil, nil
			var obj types.Object
			if is.Name != nil {
				obj = r.info.Defs[is.Name]
			} else {
				obj = r.info.Implicits[is]
			}
			if obj != nil && r.left[obj] == 0 && (is.Name == nil || is.Name.Name != ".") {
				is.Name = ast.NewIdent("_")
			}
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rtPath)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	return nil
}

func (r *rewriter) probeName(fd *ast.FuncDecl) string {
	name := r.pkg.Name() + "."
	if fd.Recv != nil && len(fd.Recv.List) == 1 {
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		id, ok := t.(*ast.Ident)
		if !ok {
			return ""
		}
		name += id.Name + "."
	}
	name += fd.Name.Name
	if probed[name] {
		return name
	}
	return ""
}

// wrap renames fd and returns a function with its old name that reports the call.
func (r *rewriter) wrap(fd *ast.FuncDecl, name string) ast.Decl {
	r.used = true
	inner := "Verif__" + fd.Name.Name
	w := &ast.FuncDecl{Name: ast.NewIdent(fd.Name.Name), Type: &ast.FuncType{Params: &ast.FieldList{}}}
	fd.Name = ast.NewIdent(inner)
	var call ast.Expr = ast.NewIdent(inner)
	probeArgs := []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(name)}}
	if fd.Recv != nil {
		w.Recv = &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{ast.NewIdent("verifR")}, Type: fd.Recv.List[0].Type}}}
		call = &ast.SelectorExpr{X: ast.NewIdent("verifR"), Sel: ast.NewIdent(inner)}
		probeArgs = append(probeArgs, ast.NewIdent("verifR"))
	}
	var args []ast.Expr
	n := 0
	ellipsis := token.NoPos
	for _, p := range fd.Type.Params.List {
		k := len(p.Names)
		if k == 0 {
			k = 1
		}
		for j := 0; j < k; j++ {
			id := fmt.Sprintf("verifP%d", n)
			n++
			w.Type.Params.List = append(w.Type.Params.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(id)}, Type: p.Type})
			args = append(args, ast.NewIdent(id))
			probeArgs = append(probeArgs, ast.NewIdent(id))
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				ellipsis = 1
			}
		}
	}
	enter := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("verifT")}, Tok: token.DEFINE,
		Rhs: []ast.Expr{&ast.CallExpr{Fun: rt("CallEnter"), Args: probeArgs}}}
	theCall := &ast.CallExpr{Fun: call, Args: args, Ellipsis: ellipsis}
	exitArgs := []ast.Expr{ast.NewIdent("verifT")}
	var body []ast.Stmt
	body = append(body, enter)
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
		w.Type.Results = &ast.FieldList{}
		var lhs []ast.Expr
		m := 0
		for _, p := range fd.Type.Results.List {
			k := len(p.Names)
			if k == 0 {
				k = 1
			}
			for j := 0; j < k; j++ {
				id := fmt.Sprintf("verifO%d", m)
				m++
				w.Type.Results.List = append(w.Type.Results.List, &ast.Field{Type: p.Type})
				lhs = append(lhs, ast.NewIdent(id))
			}
		}
		body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{theCall}})
		exitArgs = append(exitArgs, lhs...)
		body = append(body, &ast.ExprStmt{X: &ast.CallExpr{Fun: rt("CallExit"), Args: exitArgs}}, &ast.ReturnStmt{Results: lhs})
	} else {
		body = append(body, &ast.ExprStmt{X: theCall}, &ast.ExprStmt{X: &ast.CallExpr{Fun: rt("CallExit"), Args: exitArgs}})
	}
	w.Body = &ast.BlockStmt{List: body}
	return w
}

// walk rewrites one declaration in place.
func (r *rewriter) walk(n ast.Node) {
	rewriteNode(r, n)
}

// ---- generic in-place rewriting of expressions and statements

func rewriteNode(r *rewriter, n ast.Node) {
	apply(n, func(e ast.Expr) ast.Expr { return r.expr(e) }, func(list []ast.Stmt) []ast.Stmt { return r.stmts(list) })
}

// expr is called on every expression, children first.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		id, ok := x.X.(*ast.Ident)
		if !ok {
			return e
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return e
		}
		if to, ok := seams[pn.Imported().Path()][x.Sel.Name]; ok {
			r.used = true
			r.left[pn]--
			return rt(to)
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.used = true
			return &ast.CallExpr{Fun: rt("Recv"), Args: []ast.Expr{x.X}}
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) == 1 {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok && b.Name() == "make" {
				if tv, ok := r.info.Types[x.Args[0]]; ok {
					if _, ok := tv.Type.Underlying().(*types.Chan); ok {
						x.Args = append(x.Args, &ast.BasicLit{Kind: token.INT, Value: "1"})
					}
				}
			}
		}
	}
	return e
}

// stmts is called on every statement list, children first.
func (r *rewriter) stmts(list []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(list)+1)
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		}
		r.used = true
		out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: rt("Y")}})
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.LabeledStmt:
		in := r.stmt(x.Stmt)
		if is, ok := in.(*ast.IfStmt); ok && x.Stmt != in {
			// range over a map: the label must stay on the loop
			x.Stmt = is.Body.List[0]
			return &ast.BlockStmt{List: []ast.Stmt{is.Init, x}}
		}
		x.Stmt = in
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SendStmt:
		r.used = true
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: rt("Send"), Args: []ast.Expr{x.Chan, x.Value}}}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
				if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
					if id, ok := sel.X.(*ast.Ident); ok && id.Name == rtName && sel.Sel.Name == "Recv" {
						sel.Sel.Name = "Recv2"
					}
				}
			}
		}
	case *ast.RangeStmt:
		if tv, ok := r.info.Types[x.X]; ok && tv.Type != nil {
			switch tv.Type.Underlying().(type) {
			case *types.Map:
				return r.rangeMap(x)
			case *types.Chan:
				return r.rangeChan(x)
			}
		}
	}
	return s
}

func (r *rewriter) name(p string) string { r.tmp++; return fmt.Sprintf("verif%s%d", p, r.tmp) }

// go f(a, b)  ->  { f', a', b' evaluated now; simrt.Go(func(){ f'(a', b') }) }
func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	r.used = true
	var pre []ast.Stmt
	call := *g.Call
	call.Args = nil
	for _, a := range g.Call.Args {
		if tv, ok := r.info.Types[a]; ok && (tv.IsType() || tv.IsNil()) {
			call.Args = append(call.Args, a)
			continue
		}
		id := r.name("A")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		call.Args = append(call.Args, ast.NewIdent(id))
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &call}}}}
	pre = append(pre, &ast.ExprStmt{X: &ast.CallExpr{Fun: rt("Go"), Args: []ast.Expr{body}}})
	return &ast.BlockStmt{List: pre}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeMap(x *ast.RangeStmt) ast.Stmt {
	r.used = true
	m, k := r.name("M"), r.name("K")
	var head []ast.Stmt
	ok, v := r.name("Ok"), "_"
	if !isBlank(x.Value) {
		v = r.name("V")
	}
	head = append(head,
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(ok)}, Tok: token.DEFINE,
			Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(m), Index: ast.NewIdent(k)}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
	var lhs, rhs []ast.Expr
	if !isBlank(x.Key) {
		lhs, rhs = append(lhs, x.Key), append(rhs, ast.NewIdent(k))
	}
	if v != "_" {
		lhs, rhs = append(lhs, x.Value), append(rhs, ast.NewIdent(v))
	}
	if len(lhs) > 0 {
		head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: x.Tok, Rhs: rhs})
	}
	loop := &ast.RangeStmt{
		Key: ast.NewIdent("_"), Value: ast.NewIdent(k), Tok: token.DEFINE,
		X:    &ast.CallExpr{Fun: rt("MapKeys"), Args: []ast.Expr{ast.NewIdent(m)}},
		Body: &ast.BlockStmt{List: append(head, x.Body.List...)},
	}
	// if m := X; true { for ... }: m is evaluated once and scoped to the loop
	return &ast.IfStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}},
		Cond: ast.NewIdent("true"),
		Body: &ast.BlockStmt{List: []ast.Stmt{loop}},
	}
}

func (r *rewriter) rangeChan(x *ast.RangeStmt) ast.Stmt {
	r.used = true
	v, ok := r.name("V"), r.name("Ok")
	if isBlank(x.Key) {
		v = "_"
	}
	head := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(ok)}, Tok: token.DEFINE,
			Rhs: []ast.Expr{&ast.CallExpr{Fun: rt("Recv2"), Args: []ast.Expr{x.X}}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
	}
	if v != "_" {
		head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v)}})
	}
	return &ast.ForStmt{Body: &ast.BlockStmt{List: append(head, x.Body.List...)}}
}
