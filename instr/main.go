// Command vinstr copies a Go module's packages and rewrites every source of
// nondeterminism in them to go through the simulator (package vsim/simrt and
// the vsim/shim packages). It never writes to the module it reads.
//
//	vinstr -mod /repo -out DIR -shim DIR [-pt] [-skip cmd] [-literal old=new]
//
// See /verif/DESIGN.md ("Instrumentation").
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// shimmed maps an import path to the shim that replaces part of it.
var shimmed = map[string]string{
	"os":            "vsim/shim/vos",
	"io/ioutil":     "vsim/shim/vioutil",
	"path/filepath": "vsim/shim/vfilepath",
	"net":           "vsim/shim/vnet",
	"net/http":      "vsim/shim/vhttp",
	"os/exec":       "vsim/shim/vexec",
	"sync":          "vsim/shim/vsync",
	"sync/atomic":   "",
	"time":          "vsim/shim/vtime",
	"math/rand":     "vsim/shim/vmrand",
}

// functions of shimmed packages that reach the real machine and have no
// stand-in: using one is an error rather than a silent escape.
var forbidden = map[string]map[string]bool{
	"os":            set("Chown Lchown Symlink DirFS CopyFS OpenRoot OpenInRoot StartProcess NewFile Pipe FindProcess Chdir"),
	"io/ioutil":     set(""),
	"path/filepath": set("Glob EvalSymlinks"),
	"net":           set("DialTCP DialUDP DialUnix DialIP Listen ListenTCP ListenUDP ListenPacket ListenUnix FileConn LookupHost LookupIP LookupAddr"),
	"net/http":      set("ListenAndServe ListenAndServeTLS Serve"),
	"math/rand/v2":  set("Int IntN Uint64 Shuffle Perm"),
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

type listPkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles, CgoFiles             []string
	Standard                      bool
	Module                        *struct{ Path string }
	DepOnly                       bool
	Error                         *struct{ Err string }
}

var (
	modDir   = flag.String("mod", "", "module directory")
	outDir   = flag.String("out", "", "output directory")
	shimDir  = flag.String("shim", "", "directory holding the vsim module (simrt, shim/...)")
	pts      = flag.Bool("pt", false, "insert statement level preemption points")
	resets   = flag.Bool("reset", false, "generate functions that re-initialise package state")
	skip     = flag.String("skip", "", "comma separated package path suffixes to leave out")
	verbatim = flag.String("verbatim", "", "comma separated package path suffixes to copy unchanged")
	litFile  = flag.String("literals", "", "JSON file: string literal -> replacement")
	pkgsArg  = flag.String("pkgs", "./...", "package pattern")
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vinstr: "+f+"\n", a...)
	os.Exit(3)
}

func has(list, path string) bool {
	for _, s := range strings.Split(list, ",") {
		if s != "" && (path == s || strings.HasSuffix(path, "/"+s) || strings.Contains(path, "/"+s+"/")) {
			return true
		}
	}
	return false
}

func main() {
	flag.Parse()
	exports := map[string]map[string]bool{}
	for real, shim := range shimmed {
		if shim == "" {
			continue
		}
		exports[real] = shimExports(filepath.Join(*shimDir, strings.TrimPrefix(shim, "vsim/")))
	}
	lits := map[string]string{}
	if *litFile != "" {
		b, err := os.ReadFile(*litFile)
		if err != nil {
			die("%v", err)
		}
		if err := json.Unmarshal(b, &lits); err != nil {
			die("%v", err)
		}
	}

	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,CgoFiles,Standard,Module,DepOnly,Error", *pkgsArg)
	cmd.Dir = *modDir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var targets []*listPkg
	exportFile := map[string]string{}
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exportFile[p.ImportPath] = p.Export
		if p.DepOnly && !(p.Module != nil && !p.Standard && sameModule(p, *modDir)) {
			continue
		}
		if has(*skip, p.ImportPath) {
			continue
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		if len(p.GoFiles)+len(p.CgoFiles) == 0 {
			continue
		}
		targets = append(targets, p)
	}
	fset := token.NewFileSet()
	lookup := func(path string) (io.ReadCloser, error) {
		f := exportFile[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	}
	imp := importer.ForCompiler(fset, "gc", lookup)
	absMod, _ := filepath.Abs(*modDir)
	for _, p := range targets {
		rel, err := filepath.Rel(absMod, p.Dir)
		if err != nil || strings.HasPrefix(rel, "..") {
			die("%s lies outside the module", p.Dir)
		}
		dst := filepath.Join(*outDir, rel)
		if err := os.MkdirAll(dst, 0o755); err != nil {
			die("%v", err)
		}
		allPB := true
		for _, f := range p.GoFiles {
			if !strings.HasSuffix(f, ".pb.go") {
				allPB = false
			}
		}
		if allPB || has(*verbatim, p.ImportPath) || len(p.CgoFiles) > 0 {
			for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
				b, err := os.ReadFile(filepath.Join(p.Dir, f))
				if err != nil {
					die("%v", err)
				}
				if err := os.WriteFile(filepath.Join(dst, f), b, 0o644); err != nil {
					die("%v", err)
				}
			}
			continue
		}
		instrument(fset, imp, p, dst, exports, lits)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*modDir, f))
		if err != nil {
			if f == "go.sum" {
				continue
			}
			die("%v", err)
		}
		if err := os.WriteFile(filepath.Join(*outDir, f), b, 0o644); err != nil {
			die("%v", err)
		}
	}
}

func sameModule(p *listPkg, dir string) bool {
	abs, _ := filepath.Abs(dir)
	return p.Dir == abs || strings.HasPrefix(p.Dir, abs+string(filepath.Separator))
}

func shimExports(dir string) map[string]bool {
	fs := token.NewFileSet()
	m := map[string]bool{}
	ents, err := os.ReadDir(dir)
	if err != nil {
		die("shim: %v", err)
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fs, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			die("shim: %v", err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						if s.Name.IsExported() {
							m[s.Name.Name] = true
						}
					case *ast.ValueSpec:
						for _, n := range s.Names {
							if n.IsExported() {
								m[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	return m
}

type inst struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	exports map[string]map[string]bool
	lits    map[string]string
	file    *ast.File
	tmp     int
	used    map[string]bool // shim import paths used by the current file
	simrt   bool
}

func instrument(fset *token.FileSet, imp types.Importer, p *listPkg, dst string, exports map[string]map[string]bool, lits map[string]string) {
	var files []*ast.File
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		af, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	tpkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	in := &inst{fset: fset, info: info, pkg: tpkg, exports: exports, lits: lits}

	// Which file declares each package variable (for the reset functions).
	fileOf := map[types.Object]int{}
	for i, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if o := info.Defs[n]; o != nil {
							fileOf[o] = i
						}
					}
				}
			}
		}
	}
	order := info.InitOrder
	// rhs expression -> file (positions survive rewriting of the tree above
	// them; the expressions themselves are rewritten in place, so remember
	// where they hang: spec and value index)
	type slot struct {
		spec *ast.ValueSpec
		idx  int
		file int
	}
	slots := map[ast.Expr]slot{}
	for i, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					for j, v := range vs.Values {
						slots[v] = slot{vs, j, i}
					}
				}
			}
		}
	}
	type initStep struct {
		slot slot
		lhs  []string
	}
	var steps []initStep
	for _, o := range order {
		sl, ok := slots[o.Rhs]
		if !ok {
			continue
		}
		var lhs []string
		for _, v := range o.Lhs {
			lhs = append(lhs, v.Name())
		}
		if len(lhs) == 0 {
			lhs = []string{"_"}
		}
		steps = append(steps, initStep{sl, lhs})
	}

	names := make([]string, len(files))
	copy(names, p.GoFiles)
	userInits := 0
	usedBy := make([]*inst, len(files))
	for i, f := range files {
		if strings.HasSuffix(p.GoFiles[i], ".pb.go") {
			continue
		}
		fi := *in
		fi.file = f
		fi.used = map[string]bool{}
		fi.rewrite()
		usedBy[i] = &fi
		if *resets {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
					fd.Name = ast.NewIdent(fmt.Sprintf("vsimUserInit%d", userInits))
					userInits++
				}
			}
		}
	}
	var resetBody bytes.Buffer
	perFile := make([]bytes.Buffer, len(files))
	if *resets {
		// zero every variable declared without an initialiser
		for i, f := range files {
			if usedBy[i] == nil {
				continue
			}
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						vs := s.(*ast.ValueSpec)
						for _, n := range vs.Names {
							if n.Name == "_" {
								continue
							}
							fmt.Fprintf(&resetBody, "\tsimrt.Zero(&%s)\n", n.Name)
						}
					}
				}
			}
		}
		for k, st := range steps {
			if usedBy[st.slot.file] == nil {
				continue
			}
			var eb bytes.Buffer
			if err := format.Node(&eb, fset, st.slot.spec.Values[st.slot.idx]); err != nil {
				die("%v", err)
			}
			fmt.Fprintf(&perFile[st.slot.file], "\nfunc vsimInit%d() {\n\t%s = %s\n}\n", k, strings.Join(st.lhs, ", "), eb.String())
			fmt.Fprintf(&resetBody, "\tvsimInit%d()\n", k)
		}
		for k := 0; k < userInits; k++ {
			fmt.Fprintf(&resetBody, "\tvsimUserInit%d()\n", k)
		}
	}
	for i, f := range files {
		path := filepath.Join(dst, names[i])
		if usedBy[i] == nil {
			b, err := os.ReadFile(filepath.Join(p.Dir, names[i]))
			if err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(path, b, 0o644); err != nil {
				die("%v", err)
			}
			continue
		}
		usedBy[i].imports()
		var b bytes.Buffer
		b.WriteString("//go:build go1.21\n\n")
		if err := format.Node(&b, fset, f); err != nil {
			die("%s: %v", names[i], err)
		}
		b.Write(perFile[i].Bytes())
		if err := os.WriteFile(path, b.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	if *resets {
		var b bytes.Buffer
		fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\nimport \"vsim/simrt\"\n\nfunc vsimReset() {\n%s}\n\nfunc init() {\n", p.Name, resetBody.String())
		for k := 0; k < userInits; k++ {
			fmt.Fprintf(&b, "\tvsimUserInit%d()\n", k)
		}
		fmt.Fprintf(&b, "\tsimrt.RegisterPkg(%q, vsimReset)\n}\n", p.ImportPath)
		if err := os.WriteFile(filepath.Join(dst, "vsim_reset.go"), b.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
}

func (in *inst) rt(name string) ast.Expr {
	in.simrt = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsimrt"), Sel: ast.NewIdent(name)}
}

func (in *inst) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: in.rt(name), Args: args}
}

func (in *inst) fresh(p string) *ast.Ident {
	in.tmp++
	return ast.NewIdent(fmt.Sprintf("vsim%s%d", p, in.tmp))
}

func (in *inst) typeOf(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (in *inst) rewrite() {
	// Facts needed about nodes whose children get replaced first.
	rangeKind := map[*ast.RangeStmt]string{}
	isConst := map[ast.Expr]bool{}
	pkgVarMap := map[ast.Node]bool{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.RangeStmt:
			switch under(in.typeOf(n.X)).(type) {
			case *types.Map:
				rangeKind[n] = "map"
			case *types.Chan:
				rangeKind[n] = "chan"
			}
		case ast.Expr:
			if tv, ok := in.info.Types[n]; ok && (tv.Value != nil || tv.IsNil()) {
				isConst[n] = true
			}
		}
		return true
	})
	_ = pkgVarMap
	mapTouch := in.mapTouches()

	astutil.Apply(in.file, nil, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.BasicLit:
			if n.Kind == token.STRING && len(in.lits) > 0 {
				if _, ok := c.Parent().(*ast.ImportSpec); ok {
					return true
				}
				if _, ok := c.Parent().(*ast.Field); ok {
					return true
				}
				if v, err := strconv.Unquote(n.Value); err == nil {
					if r, ok := in.lits[v]; ok {
						n.Value = strconv.Quote(r)
					}
				}
			}
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := in.info.Uses[id].(*types.PkgName)
			if !ok {
				return true
			}
			path := pn.Imported().Path()
			if forbidden[path][n.Sel.Name] {
				die("%s: %s.%s has no stand-in in the simulator", in.fset.Position(n.Pos()), path, n.Sel.Name)
			}
			if ex := in.exports[path]; ex != nil && ex[n.Sel.Name] {
				in.used[path] = true
				c.Replace(&ast.SelectorExpr{X: ast.NewIdent(alias(path)), Sel: n.Sel})
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				name := "Recv"
				switch p := c.Parent().(type) {
				case *ast.AssignStmt:
					if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
						name = "Recv2"
					}
				case *ast.ValueSpec:
					if len(p.Names) == 2 && len(p.Values) == 1 {
						name = "Recv2"
					}
				case *ast.CommClause:
					return true
				}
				if in.inComm(c, n) {
					return true
				}
				c.Replace(in.call(name, n.X))
			}
		case *ast.SendStmt:
			if _, ok := c.Parent().(*ast.CommClause); ok && c.Name() == "Comm" {
				return true
			}
			c.Replace(&ast.ExprStmt{X: in.call("Send", n.Chan, n.Value)})
		case *ast.GoStmt:
			c.Replace(in.goStmt(n, isConst))
		case *ast.SelectStmt:
			c.Replace(in.selectStmt(n))
		case *ast.RangeStmt:
			switch rangeKind[n] {
			case "map":
				c.Replace(in.rangeMap(n))
			case "chan":
				c.Replace(in.rangeChan(n))
			}
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			n.List = in.points(n.List, mapTouch)
		case *ast.CaseClause:
			n.Body = in.points(n.Body, mapTouch)
		case *ast.CommClause:
			n.Body = in.points(n.Body, mapTouch)
		}
		return true
	})
}

// inComm reports whether the receive expression is the communication of a
// select clause (handled by selectStmt).
func (in *inst) inComm(c *astutil.Cursor, n *ast.UnaryExpr) bool {
	return commRecv[n]
}

var commRecv = map[*ast.UnaryExpr]bool{}

// mapTouch describes accesses to maps that several goroutines can reach
// (package level variables or fields), made directly by a statement.
type touch struct {
	expr  ast.Expr
	write bool
}

// mapTouches collects, for every statement, the package level maps it reads
// or writes, so that the simulator can treat the access as an interval, the
// way the runtime's own concurrent map check does. It also marks select
// receives.
func (in *inst) mapTouches() map[ast.Stmt][]touch {
	res := map[ast.Stmt][]touch{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		if cc, ok := n.(*ast.CommClause); ok && cc.Comm != nil {
			switch s := cc.Comm.(type) {
			case *ast.ExprStmt:
				if u, ok := unparen(s.X).(*ast.UnaryExpr); ok {
					commRecv[u] = true
				}
			case *ast.AssignStmt:
				if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok {
					commRecv[u] = true
				}
			}
		}
		return true
	})
	var global func(e ast.Expr) bool
	global = func(e ast.Expr) bool {
		switch e := unparen(e).(type) {
		case *ast.Ident:
			v, ok := in.info.Uses[e].(*types.Var)
			return ok && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		case *ast.SelectorExpr:
			if id, ok := e.X.(*ast.Ident); ok {
				if _, ok := in.info.Uses[id].(*types.PkgName); ok {
					v, ok := in.info.Uses[e.Sel].(*types.Var)
					return ok && !v.IsField()
				}
			}
			// no path through a pointer: evaluating it early could fault
			if sel, ok := in.info.Selections[e]; !ok || sel.Kind() != types.FieldVal || sel.Indirect() {
				return false
			}
			return global(e.X)
		}
		return false
	}
	isMap := func(e ast.Expr) bool {
		_, ok := under(in.typeOf(e)).(*types.Map)
		return ok && global(e)
	}
	// the innermost statement that lives in a statement list
	var stack []ast.Node
	var lists []ast.Stmt
	inList := map[ast.Stmt]bool{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			for _, s := range n.List {
				inList[s] = true
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				inList[s] = true
			}
		case *ast.CommClause:
			for _, s := range n.Body {
				inList[s] = true
			}
		}
		return true
	})
	_ = lists
	add := func(e ast.Expr, w bool) {
		for i := len(stack) - 1; i >= 0; i-- {
			if _, ok := stack[i].(*ast.FuncLit); ok {
				// fall through: the statement inside the literal was closer
			}
			if s, ok := stack[i].(ast.Stmt); ok && inList[s] {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					continue
				}
				res[s] = append(res[s], touch{e, w})
				return
			}
		}
	}
	ast.Inspect(in.file, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		switch n := n.(type) {
		case *ast.IndexExpr:
			if isMap(n.X) {
				w := false
				if len(stack) > 0 {
					switch p := stack[len(stack)-1].(type) {
					case *ast.AssignStmt:
						for _, l := range p.Lhs {
							if l == ast.Expr(n) {
								w = true
							}
						}
					case *ast.IncDecStmt:
						w = true
					}
				}
				add(n.X, w)
			}
		case *ast.RangeStmt:
			if isMap(n.X) {
				stack = append(stack, n)
				add(n.X, false)
				stack = stack[:len(stack)-1]
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "delete" && len(n.Args) == 2 && isMap(n.Args[0]) {
				add(n.Args[0], true)
			}
		}
		stack = append(stack, n)
		return true
	})
	return res
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *inst) points(list []ast.Stmt, mt map[ast.Stmt][]touch) []ast.Stmt {
	if !*pts {
		return list
	}
	var out []ast.Stmt
	for _, s := range list {
		out = append(out, &ast.ExprStmt{X: in.call("Pt")})
		var ts []touch
		if t, ok := mt[s]; ok {
			ts = t
		} else if r, ok := replacedStmt[s]; ok {
			ts = mt[r]
		}
		seen := map[string]bool{}
		for _, t := range ts {
			var b bytes.Buffer
			format.Node(&b, in.fset, t.expr)
			key := fmt.Sprint(b.String(), t.write)
			if seen[key] {
				continue
			}
			seen[key] = true
			name := "MapR"
			if t.write {
				name = "MapW"
			}
			out = append(out, &ast.ExprStmt{X: in.call(name, t.expr)})
		}
		out = append(out, s)
	}
	return out
}

// replacedStmt maps a rewritten statement back to the original one.
var replacedStmt = map[ast.Stmt]ast.Stmt{}

func (in *inst) goStmt(n *ast.GoStmt, isConst map[ast.Expr]bool) ast.Stmt {
	call := n.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: in.call("Go", fl)}
	}
	blk := &ast.BlockStmt{}
	fn := in.fresh("f")
	blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{fn}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Fun}})
	var args []ast.Expr
	for _, a := range call.Args {
		if isConst[a] {
			args = append(args, a)
			continue
		}
		if _, ok := a.(*ast.FuncLit); ok {
			args = append(args, a)
			continue
		}
		v := in.fresh("a")
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args = append(args, v)
	}
	inner := &ast.CallExpr{Fun: fn, Args: args, Ellipsis: call.Ellipsis}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	blk.List = append(blk.List, &ast.ExprStmt{X: in.call("Go", lit)})
	return blk
}

func (in *inst) selectStmt(n *ast.SelectStmt) ast.Stmt {
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var lhs, rhs []ast.Expr
	var args []ast.Expr
	hasDefault := "false"
	idx := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: cc.Body})
			continue
		}
		v := in.fresh("c")
		lhs = append(lhs, v)
		args = append(args, v)
		body := cc.Body
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, in.call("SendCase", s.Chan, s.Value))
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			rhs = append(rhs, in.call("RecvCase", u.X))
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			rhs = append(rhs, in.call("RecvCase", u.X))
			as := &ast.AssignStmt{Tok: s.Tok, Lhs: s.Lhs}
			as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: v, Sel: ast.NewIdent("Val")})
			if len(s.Lhs) == 2 {
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: v, Sel: ast.NewIdent("OK")})
			}
			body = append([]ast.Stmt{as}, body...)
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	// The last clause becomes the default, so that the statement ends a
	// function where the select did.
	if k := len(sw.Body.List); k > 0 {
		sw.Body.List[k-1].(*ast.CaseClause).List = nil
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("unreachable")}}}}}})
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = in.call("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, args...)...)
	return sw
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *inst) rangeMap(n *ast.RangeStmt) ast.Stmt {
	m := in.fresh("m")
	e := in.fresh("e")
	var pre []ast.Stmt
	live := in.fresh("ok")
	val := in.fresh("v")
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val, live}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: e}}})
	pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: live}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{val}})
	var l, r []ast.Expr
	if !blank(n.Key) {
		l = append(l, n.Key)
		r = append(r, e)
	}
	if !blank(n.Value) {
		l = append(l, n.Value)
		r = append(r, val)
	}
	if len(l) > 0 {
		pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: n.Tok, Rhs: r})
		if n.Tok == token.DEFINE {
			for _, x := range l {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{x}})
			}
		}
	}
	body := &ast.BlockStmt{List: append(pre, n.Body.List...)}
	loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: e, Tok: token.DEFINE, X: in.call("MapKeys", m), Body: body}
	// keep one statement so that labels still attach to the loop
	_ = loop
	f := &ast.ForStmt{}
	_ = f
	loop.X = in.call("MapKeys", m)
	// for _, e := range MapKeys(m): m must be evaluated once, before.
	// The map expression is evaluated in a one-shot outer binding unless it
	// is already a plain identifier or selector.
	switch x := unparen(n.X).(type) {
	case *ast.Ident, *ast.SelectorExpr:
		loop.X = in.call("MapKeys", x)
		pre[0].(*ast.AssignStmt).Rhs[0] = &ast.IndexExpr{X: x, Index: e}
		replacedStmt[loop] = n
		return loop
	}
	blk := &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{n.X}}, loop}}
	replacedStmt[blk] = n
	return blk
}

func (in *inst) rangeChan(n *ast.RangeStmt) ast.Stmt {
	v := in.fresh("v")
	ok := in.fresh("ok")
	var pre []ast.Stmt
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{in.call("Recv2", n.X)}})
	pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	if blank(n.Key) {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
	} else {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: n.Tok, Rhs: []ast.Expr{v}})
	}
	return &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, n.Body.List...)}}
}

func alias(path string) string { return "vsim_" + strings.ReplaceAll(strings.ReplaceAll(path, "/", "_"), ".", "_") }

// imports adds the shim imports and drops imports that are no longer used.
func (in *inst) imports() {
	usedNames := map[string]bool{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				usedNames[id.Name] = true
			}
		}
		return true
	})
	var specs []ast.Spec
	var keep []*ast.ImportSpec
	for _, d := range in.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		var ns []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else if pn, ok := in.info.Implicits[is].(*types.PkgName); ok {
				name = pn.Name()
			}
			if in.exports[path] != nil && name != "_" && name != "." && !usedNames[name] {
				continue
			}
			if name == "." && in.exports[path] != nil {
				die("dot import of %s", path)
			}
			ns = append(ns, s)
			keep = append(keep, is)
		}
		g.Specs = ns
	}
	var paths []string
	for p := range in.used {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(alias(p)), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shimmed[p])}})
	}
	if in.simrt {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("vsimrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vsim/simrt"`}})
	}
	var decls []ast.Decl
	for _, d := range in.file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && len(g.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	if len(specs) > 0 {
		decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 1, Specs: specs}}, decls...)
	}
	in.file.Decls = decls
	in.file.Imports = keep
}
