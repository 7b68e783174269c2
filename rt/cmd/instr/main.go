// instr copies the source of the program under check into a scratch module, replacing the
// standard packages through which it touches the outside world by stand-ins, and (mode
// conc) turning its goroutines, channel operations and accesses to package variables into
// steps of the explorer's scheduler.
//
//	instr -repo DIR -out DIR -rt DIR -gocui DIR [-conc [-shown]]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/charlesetsmith/saratoga"

var shims = map[string]string{
	"log": "verif/vlog", "os": "verif/vos", "net": "verif/vnet", "time": "verif/vtime",
	"sync": "verif/vsync", "syscall": "verif/vsyscall",
}

type pkg struct {
	dir, rel, path, name string
	files                []string
	vars                 []string
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	rt := flag.String("rt", "", "")
	gocui := flag.String("gocui", "", "")
	conc := flag.Bool("conc", false, "")
	flag.BoolVar(&shown, "shown", false, "")
	flag.Parse()

	src := filepath.Join(*out, "src")
	var pkgs []*pkg
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = "linux", "amd64", false
	err := filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if d.IsDir() {
			if rel != "." && (strings.HasPrefix(d.Name(), ".") || strings.HasPrefix(d.Name(), "_") || d.Name() == "testdata" || d.Name() == "vendor" || rel == "client" || rel == "server") {
				return filepath.SkipDir
			}
			pk := &pkg{dir: p, rel: rel, path: path.Join(module, filepath.ToSlash(rel))}
			ents, err := os.ReadDir(p)
			if err != nil {
				return err
			}
			for _, e := range ents {
				n := e.Name()
				if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
					continue
				}
				ok, err := ctx.MatchFile(p, n)
				if err != nil || !ok {
					continue
				}
				pk.files = append(pk.files, n)
			}
			if len(pk.files) > 0 {
				pkgs = append(pkgs, pk)
			}
		}
		return nil
	})
	die(err)
	for _, p := range pkgs {
		die(copyPkg(p, filepath.Join(src, p.rel)))
	}
	die(copyFile(filepath.Join(*repo, "saratoga", "saratoga.json"), filepath.Join(src, "saratoga", "saratoga.json")))
	die(os.WriteFile(filepath.Join(src, "go.mod"), []byte("module "+module+"\n\ngo 1.21.4\n"), 0o644))
	die(os.WriteFile(filepath.Join(*out, "go.work"), []byte(fmt.Sprintf("go 1.24\n\nuse (\n\t./src\n\t%s\n\t%s\n)\n", *rt, *gocui)), 0o644))
	if *conc {
		die(concurrent(*out, src, pkgs))
	}
}

func copyFile(from, to string) error {
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(to), 0o755)
	return os.WriteFile(to, b, 0o644)
}

type edit struct {
	pos, end int
	text     string
}

func copyPkg(p *pkg, to string) error {
	if err := os.MkdirAll(to, 0o755); err != nil {
		return err
	}
	hasMain := false
	for _, n := range p.files {
		b, err := os.ReadFile(filepath.Join(p.dir, n))
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, b, parser.ParseComments)
		if err != nil {
			return err
		}
		var eds []edit
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		p.name = f.Name.Name
		if f.Name.Name == "main" {
			p.name = "sarmain"
			eds = append(eds, edit{off(f.Name.Pos()), off(f.Name.End()), "sarmain"})
		}
		for _, im := range f.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			if s, ok := shims[ip]; ok {
				t := strconv.Quote(s)
				if im.Name == nil {
					t = path.Base(ip) + " " + t
				}
				eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), t})
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							p.vars = append(p.vars, n.Name)
						}
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "main" && p.name == "sarmain" {
					hasMain = true
				}
			}
		}
		sort.Slice(eds, func(i, j int) bool { return eds[i].pos > eds[j].pos })
		for _, e := range eds {
			b = append(b[:e.pos:e.pos], append([]byte(e.text), b[e.end:]...)...)
		}
		if err := os.WriteFile(filepath.Join(to, n), b, 0o644); err != nil {
			return err
		}
	}
	var g bytes.Buffer
	fmt.Fprintf(&g, "package %s\n\n", p.name)
	if len(p.vars) > 0 {
		fmt.Fprintf(&g, "import vstate \"verif/vstate\"\n\nfunc init() {\n")
		for _, v := range p.vars {
			fmt.Fprintf(&g, "\tvstate.Register(%q, %q, &%s)\n", p.rel, v, v)
		}
		fmt.Fprintf(&g, "}\n")
	}
	if hasMain {
		fmt.Fprintf(&g, "\n// Main is the program.\nfunc Main() { main() }\n")
	}
	return os.WriteFile(filepath.Join(to, "zz_verif.go"), g.Bytes(), 0o644)
}

// ---------------------------------------------------------------- concurrency

func concurrent(out, src string, pkgs []*pkg) error {
	cmd := exec.Command("go", "list", "-e", "-trimpath", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}}={{.Export}}{{end}}", "./...", "verif/vs")
	cmd.Dir = src
	cmd.Env = append(os.Environ(), "GOWORK="+filepath.Join(out, "go.work"))
	var errb bytes.Buffer
	cmd.Stderr = &errb
	o, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	exp := map[string]string{}
	for _, l := range strings.Split(string(o), "\n") {
		if k, v, ok := strings.Cut(l, "="); ok {
			exp[k] = v
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		f, ok := exp[p]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	})
	type loaded struct {
		p     *pkg
		files []*ast.File
		names []string
		info  *types.Info
		tp    *types.Package
	}
	var all []*loaded
	for _, p := range pkgs {
		if _, ok := exp[p.path]; !ok {
			continue // does not build; nothing under check imports it
		}
		l := &loaded{p: p}
		for _, n := range p.files {
			fn := filepath.Join(src, p.rel, n)
			f, err := parser.ParseFile(fset, fn, nil, parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			l.files = append(l.files, f)
			l.names = append(l.names, fn)
		}
		l.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.21"}
		tp, err := conf.Check(p.path, fset, append([]*ast.File{}, l.files...), l.info)
		if err != nil {
			return fmt.Errorf("type check %s: %v", p.path, err)
		}
		l.tp = tp
		all = append(all, l)
	}
	// which package variables are ever written by the program
	written := map[string]bool{}
	for _, l := range all {
		x := &xform{info: l.info, pkg: l.tp}
		for _, f := range l.files {
			ast.Inspect(f, func(n ast.Node) bool {
				x.writes(n, func(v string) { written[v] = true })
				return true
			})
		}
	}
	for _, l := range all {
		for i, f := range l.files {
			x := &xform{info: l.info, pkg: l.tp, written: written, fset: fset}
			x.hush(f)
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					x.fn = fd.Name.Name
					x.block(fd.Body)
				} else {
					x.exprsIn(d)
				}
			}
			x.maps(f)
			if x.used {
				addImport(f)
			}
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				return fmt.Errorf("print %s: %v", l.names[i], err)
			}
			if err := os.WriteFile(l.names[i], b.Bytes(), 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

func addImport(f *ast.File) {
	spec := &ast.ImportSpec{Name: ast.NewIdent("verifvs"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/vs"`}}
	d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{d}, f.Decls...)
	f.Imports = append(f.Imports, spec)
}

type xform struct {
	info    *types.Info
	pkg     *types.Package
	fset    *token.FileSet
	written map[string]bool
	used    bool
	fn      string
	n       int
}

// Printing to a window is not a scheduling point (unless -shown): what is printed by whom before
// whom decides nothing else, and nothing else happens while the lock of the windows is held.
var shown bool
var quiet = map[string]bool{"sarwin.ViewMu": true, "sarwin.waiting": true}

// hush has locks of quiet variables taken without a scheduling point where they are free.
func (x *xform) hush(f *ast.File) {
	if shown {
		return
	}
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok || (se.Sel.Name != "Lock" && se.Sel.Name != "Unlock") {
			return true
		}
		id, _ := se.X.(*ast.Ident)
		if q, ok := se.X.(*ast.SelectorExpr); ok {
			id = q.Sel
		}
		if id == nil {
			return true
		}
		v, ok := x.info.Uses[id].(*types.Var)
		if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() || !quiet[strings.TrimPrefix(v.Pkg().Path(), module+"/")+"."+v.Name()] {
			return true
		}
		if n, ok := v.Type().(*types.Named); ok && n.Obj().Name() == "Mutex" && n.Obj().Pkg().Path() == "verif/vsync" {
			se.Sel.Name = "Quiet" + se.Sel.Name
		}
		return true
	})
}

// maps marks what is done to maps: m[k], delete, clear and range.
func (x *xform) maps(f *ast.File) {
	isMap := func(e ast.Expr) bool {
		tv, ok := x.info.Types[e]
		if !ok || tv.Type == nil || !tv.IsValue() {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Map)
		return ok
	}
	changed := map[ast.Expr]bool{}
	var marks []func()
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				changed[unparen(l)] = true
			}
		case *ast.IncDecStmt:
			changed[unparen(n.X)] = true
		case *ast.IndexExpr:
			if isMap(n.X) {
				w := "MapR"
				if changed[n] {
					w = "MapW"
				}
				marks = append(marks, func() { n.X = call(x.vs(w), n.X) })
			}
		case *ast.RangeStmt:
			if isMap(n.X) {
				marks = append(marks, func() { n.X = call(x.vs("MapR"), n.X) })
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 && isMap(n.Args[0]) {
				if b, ok := x.info.Uses[id].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					marks = append(marks, func() { n.Args[0] = call(x.vs("MapW"), n.Args[0]) })
				}
			}
		}
		return true
	})
	for _, m := range marks {
		m()
	}
}

func (x *xform) tmp(p string) string { x.n++; return fmt.Sprintf("verif%s%d", p, x.n) }

func (x *xform) vs(name string) ast.Expr {
	x.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("verifvs"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func str(s string) ast.Expr {
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)}
}
func define(n string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

// global: the name of the package variable (of the program) that an expression is rooted in.
func (x *xform) global(e ast.Expr) string {
	for {
		switch t := e.(type) {
		case *ast.ParenExpr:
			e = t.X
		case *ast.IndexExpr:
			e = t.X
		case *ast.SliceExpr:
			e = t.X
		case *ast.StarExpr:
			e = t.X
		case *ast.SelectorExpr:
			if id, ok := t.X.(*ast.Ident); ok {
				if _, isPkg := x.info.Uses[id].(*types.PkgName); isPkg {
					return x.varName(x.info.Uses[t.Sel])
				}
			}
			e = t.X
		case *ast.Ident:
			return x.varName(x.info.Uses[t])
		default:
			return ""
		}
	}
}

func (x *xform) varName(o types.Object) string {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || !strings.HasPrefix(v.Pkg().Path(), module) {
		return ""
	}
	if v.Parent() != v.Pkg().Scope() {
		return ""
	}
	if n, ok := v.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "verif/vsync" {
		return ""
	}
	name := strings.TrimPrefix(v.Pkg().Path(), module+"/") + "." + v.Name()
	if quiet[name] && !shown {
		return ""
	}
	return name
}

// writes reports the package variables a node itself writes (or lets be written).
func (x *xform) writes(n ast.Node, f func(string)) {
	rep := func(e ast.Expr) {
		if g := x.global(e); g != "" {
			f(g)
		}
	}
	switch n := n.(type) {
	case *ast.AssignStmt:
		if n.Tok != token.DEFINE {
			for _, l := range n.Lhs {
				rep(l)
			}
		}
	case *ast.IncDecStmt:
		rep(n.X)
	case *ast.UnaryExpr:
		if n.Op == token.AND {
			rep(n.X)
		}
	case *ast.RangeStmt:
		if n.Tok == token.ASSIGN {
			if n.Key != nil {
				rep(n.Key)
			}
			if n.Value != nil {
				rep(n.Value)
			}
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok {
			if _, ok := x.info.Uses[id].(*types.Builtin); ok && len(n.Args) > 0 {
				switch id.Name {
				case "delete", "copy", "clear":
					rep(n.Args[0])
				}
			}
		}
		if se, ok := n.Fun.(*ast.SelectorExpr); ok {
			if s := x.info.Selections[se]; s != nil && s.Kind() == types.MethodVal {
				if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
					if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
						if g := x.global(se.X); g != "" {
							f(g)
						}
					}
				}
			}
		}
	}
}

// accesses of package variables by the given nodes, nested function literals and blocks
// excluded.
func (x *xform) accesses(nodes ...ast.Node) []ast.Stmt {
	acc := map[string]bool{}
	var order []string
	for _, n := range nodes {
		if n == nil {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch t := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.Ident:
				if g := x.varName(x.info.Uses[t]); g != "" && x.written[g] {
					if _, ok := acc[g]; !ok {
						acc[g] = false
						order = append(order, g)
					}
				}
			}
			if n != nil {
				x.writes(n, func(g string) {
					if x.written[g] {
						if _, ok := acc[g]; !ok {
							order = append(order, g)
						}
						acc[g] = true
					}
				})
			}
			return true
		})
	}
	var out []ast.Stmt
	for _, g := range order {
		w := "false"
		if acc[g] {
			w = "true"
		}
		out = append(out, &ast.ExprStmt{X: call(x.vs("Acc"), str(g), ast.NewIdent(w))})
	}
	return out
}

func (x *xform) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = x.stmts(b.List)
	}
}

func (x *xform) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, x.stmt(s)...)
	}
	return out
}

func nodes(xs ...ast.Node) []ast.Node {
	var out []ast.Node
	for _, n := range xs {
		if n == nil {
			continue
		}
		switch t := n.(type) {
		case ast.Expr:
			if t == nil {
				continue
			}
		case ast.Stmt:
			if t == nil {
				continue
			}
		}
		out = append(out, n)
	}
	return out
}

func (x *xform) isChan(e ast.Expr) bool {
	tv, ok := x.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// stmt rewrites one statement into a list.
func (x *xform) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		x.block(s)
		return []ast.Stmt{s}
	case *ast.LabeledStmt:
		l := x.stmt(s.Stmt)
		if len(l) == 1 {
			if bl, ok := l[0].(*ast.BlockStmt); ok && len(bl.List) > 0 {
				if _, was := s.Stmt.(*ast.SelectStmt); was { // the label belongs to the switch
					last := len(bl.List) - 1
					s.Stmt = bl.List[last]
					bl.List[last] = s
					return []ast.Stmt{bl}
				}
				if _, was := s.Stmt.(*ast.RangeStmt); was {
					last := len(bl.List) - 1
					s.Stmt = bl.List[last]
					bl.List[last] = s
					return []ast.Stmt{bl}
				}
			}
			s.Stmt = l[0]
			return []ast.Stmt{s}
		}
		pre := l[:len(l)-1]
		s.Stmt = l[len(l)-1]
		return append(append([]ast.Stmt{}, pre...), s)
	case *ast.IfStmt:
		var n []ast.Node
		for i := s; i != nil; {
			if i.Init != nil {
				n = append(n, i.Init)
			}
			n = append(n, i.Cond)
			e, _ := i.Else.(*ast.IfStmt)
			i = e
		}
		acc := x.accesses(n...)
		x.ifs(s)
		return append(acc, s)
	case *ast.ForStmt:
		n := nodes()
		if s.Init != nil {
			n = append(n, s.Init)
		}
		if s.Cond != nil {
			n = append(n, s.Cond)
		}
		acc := x.accesses(n...)
		var again []ast.Stmt
		if s.Cond != nil {
			again = x.accesses(s.Cond)
		}
		if s.Post != nil {
			again = append(again, x.accesses(s.Post)...)
			x.exprsIn(s.Post)
		}
		if s.Init != nil {
			x.exprsIn(s.Init)
		}
		if s.Cond != nil {
			s.Cond = x.expr(s.Cond)
		}
		x.block(s.Body)
		s.Body.List = append(again, s.Body.List...)
		return append(acc, s)
	case *ast.RangeStmt:
		acc := x.accesses(s.X)
		again := x.accesses(s.X)
		if s.Tok == token.ASSIGN {
			again = append(again, x.accesses(nodesOf(s.Key, s.Value)...)...)
		}
		if x.isChan(s.X) {
			ch := x.tmp("ch")
			pre := define(ch, x.expr(s.X))
			x.block(s.Body)
			ok := x.tmp("ok")
			lhs := []ast.Expr{ast.NewIdent("_"), ast.NewIdent(ok)}
			var set ast.Stmt
			if s.Key != nil {
				if s.Tok == token.DEFINE {
					lhs[0] = s.Key
				} else {
					v := x.tmp("v")
					lhs[0] = ast.NewIdent(v)
					set = &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}}
				}
			}
			body := []ast.Stmt{
				&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(x.vs("Recv2"), ast.NewIdent(ch))}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			}
			if set != nil {
				body = append(body, set)
			}
			body = append(body, s.Body.List...)
			return append(acc, &ast.BlockStmt{List: []ast.Stmt{pre, &ast.ForStmt{Body: &ast.BlockStmt{List: body}}}})
		}
		s.X = x.expr(s.X)
		x.block(s.Body)
		s.Body.List = append(again, s.Body.List...)
		return append(acc, s)
	case *ast.SwitchStmt:
		n := nodes()
		if s.Init != nil {
			n = append(n, s.Init)
			x2 := s.Init
			_ = x2
		}
		if s.Tag != nil {
			n = append(n, s.Tag)
		}
		for _, c := range s.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				n = append(n, e)
			}
		}
		acc := x.accesses(n...)
		if s.Init != nil {
			x.exprsIn(s.Init)
		}
		if s.Tag != nil {
			s.Tag = x.expr(s.Tag)
		}
		x.clauses(s.Body)
		return append(acc, s)
	case *ast.TypeSwitchStmt:
		n := nodes()
		if s.Init != nil {
			n = append(n, s.Init)
		}
		n = append(n, s.Assign)
		acc := x.accesses(n...)
		if s.Init != nil {
			x.exprsIn(s.Init)
		}
		x.exprsIn(s.Assign)
		x.clauses(s.Body)
		return append(acc, s)
	case *ast.SelectStmt:
		return x.selectStmt(s)
	case *ast.SendStmt:
		acc := x.accesses(s)
		return append(acc, &ast.ExprStmt{X: call(call(x.vs("SendTo"), x.expr(s.Chan)), x.expr(s.Value))})
	case *ast.GoStmt:
		acc := x.accesses(s.Call)
		return append(acc, x.goStmt(s))
	case *ast.AssignStmt:
		return x.assign(s)
	case *ast.IncDecStmt:
		g := x.global(s.X)
		if g != "" && x.written[g] {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return x.rmw(g, s.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
		acc := x.accesses(s)
		x.exprsIn(s)
		return append(acc, s)
	case nil:
		return nil
	default:
		acc := x.accesses(s)
		x.exprsIn(s)
		return append(acc, s)
	}
}

func nodesOf(es ...ast.Expr) []ast.Node {
	var out []ast.Node
	for _, e := range es {
		if e != nil {
			out = append(out, e)
		}
	}
	return out
}

func (x *xform) ifs(s *ast.IfStmt) {
	if s.Init != nil {
		x.exprsIn(s.Init)
	}
	s.Cond = x.expr(s.Cond)
	x.block(s.Body)
	switch e := s.Else.(type) {
	case *ast.BlockStmt:
		x.block(e)
	case *ast.IfStmt:
		x.ifs(e)
	}
}

func (x *xform) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			cc.List[i] = x.expr(cc.List[i])
		}
		cc.Body = x.stmts(cc.Body)
	}
}

// rmw: a read-modify-write of a package variable is two steps.
func (x *xform) rmw(g string, lhs ast.Expr, op token.Token, rhs ast.Expr) []ast.Stmt {
	t := x.tmp("t")
	acc := x.accesses(lhs, rhs)
	if len(acc) == 0 {
		acc = []ast.Stmt{&ast.ExprStmt{X: call(x.vs("Acc"), str(g), ast.NewIdent("false"))}}
	}
	l := x.expr(lhs)
	return append(acc, &ast.BlockStmt{List: []ast.Stmt{
		define(t, &ast.BinaryExpr{X: l, Op: op, Y: &ast.ParenExpr{X: x.expr(rhs)}}),
		&ast.ExprStmt{X: call(x.vs("Acc"), str(g), ast.NewIdent("true"))},
		&ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t)}},
	}})
}

func simple(e ast.Expr) bool {
	switch t := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(t.X)
	}
	return false
}

func (x *xform) assign(s *ast.AssignStmt) []ast.Stmt {
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok != token.DEFINE && simple(s.Lhs[0]) {
		g := x.global(s.Lhs[0])
		if g != "" && x.written[g] {
			if s.Tok != token.ASSIGN {
				ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
					token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
					token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
				return x.rmw(g, s.Lhs[0], ops[s.Tok], s.Rhs[0])
			}
			// lhs = f(package variables): evaluate, then store
			if acc := x.accesses(s.Rhs[0]); len(acc) > 0 {
				if tv := x.info.Types[s.Rhs[0]]; tv.Value == nil && !tv.IsNil() {
					if b, ok := tv.Type.(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
						t := x.tmp("t")
						return append(acc, &ast.BlockStmt{List: []ast.Stmt{
							define(t, x.expr(s.Rhs[0])),
							&ast.ExprStmt{X: call(x.vs("Acc"), str(g), ast.NewIdent("true"))},
							&ast.AssignStmt{Lhs: s.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t)}},
						}})
					}
				}
			}
		}
	}
	acc := x.accesses(s)
	// v, ok := <-ch
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.Rhs[0] = call(x.vs("Recv2"), x.expr(u.X))
			for i := range s.Lhs {
				s.Lhs[i] = x.expr(s.Lhs[i])
			}
			return append(acc, s)
		}
	}
	x.exprsIn(s)
	return append(acc, s)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (x *xform) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	name := x.fn + ".go"
	if id, ok := c.Fun.(*ast.Ident); ok {
		name = id.Name
		if _, b := x.info.Uses[id].(*types.Builtin); b {
			return &ast.ExprStmt{X: call(x.vs("Go"), str(name), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: x.stmt(&ast.ExprStmt{X: c})}})}
		}
	}
	if se, ok := c.Fun.(*ast.SelectorExpr); ok {
		name = se.Sel.Name
	}
	var pre []ast.Stmt
	var fun ast.Expr
	if fl, ok := c.Fun.(*ast.FuncLit); ok {
		x.block(fl.Body)
		fun = fl
	} else {
		f := x.tmp("f")
		pre = append(pre, define(f, x.expr(c.Fun)))
		fun = ast.NewIdent(f)
	}
	var args []ast.Expr
	for _, a := range c.Args {
		tv := x.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, a)
			continue
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			args = append(args, a)
			continue
		}
		n := x.tmp("a")
		pre = append(pre, define(n, x.expr(a)))
		args = append(args, ast.NewIdent(n))
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	g := &ast.ExprStmt{X: call(x.vs("Go"), str(name), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})}
	return &ast.BlockStmt{List: append(pre, g)}
}

func (x *xform) selectStmt(s *ast.SelectStmt) []ast.Stmt {
	if len(s.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: call(x.vs("BlockForever"))}, &ast.ExprStmt{X: call(ast.NewIdent("panic"), str("unreachable"))}}
	}
	var pre []ast.Stmt
	hasDefault := "false"
	args := []ast.Expr{nil}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var def *ast.CaseClause
	idx := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		out := &ast.CaseClause{}
		switch comm := cc.Comm.(type) {
		case nil:
			hasDefault = "true"
			out.Body = x.stmts(cc.Body)
			out.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
			sw.Body.List = append(sw.Body.List, out)
			continue
		case *ast.SendStmt:
			pre = append(pre, x.accesses(comm)...)
			n := x.tmp("c")
			pre = append(pre, define(n, call(call(x.vs("SC"), x.expr(comm.Chan)), x.expr(comm.Value))))
			args = append(args, ast.NewIdent(n))
			out.Body = x.stmts(cc.Body)
		default:
			var rx *ast.UnaryExpr
			var as *ast.AssignStmt
			switch c := comm.(type) {
			case *ast.ExprStmt:
				rx = unparen(c.X).(*ast.UnaryExpr)
			case *ast.AssignStmt:
				as = c
				rx = unparen(c.Rhs[0]).(*ast.UnaryExpr)
			}
			pre = append(pre, x.accesses(rx)...)
			n := x.tmp("c")
			pre = append(pre, define(n, call(x.vs("RC"), x.expr(rx.X))))
			args = append(args, ast.NewIdent(n))
			if as != nil {
				rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent("V")}}
				if len(as.Lhs) == 2 {
					rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent("OK")})
				}
				out.Body = append(out.Body, &ast.AssignStmt{Lhs: as.Lhs, Tok: as.Tok, Rhs: rhs})
			}
			out.Body = append(out.Body, x.stmts(cc.Body)...)
		}
		out.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		sw.Body.List = append(sw.Body.List, out)
	}
	_ = def
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), str("unreachable select"))}}})
	args[0] = ast.NewIdent(hasDefault)
	sw.Tag = call(x.vs("Select"), args...)
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, sw)}}
}

// exprsIn rewrites the expressions of a node in place (receive operations, close, len,
// function literals).
func (x *xform) exprsIn(n ast.Node) {
	switch n := n.(type) {
	case *ast.ExprStmt:
		n.X = x.expr(n.X)
	case *ast.AssignStmt:
		for i := range n.Lhs {
			n.Lhs[i] = x.expr(n.Lhs[i])
		}
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				n.Rhs[0] = call(x.vs("Recv2"), x.expr(u.X))
				return
			}
		}
		for i := range n.Rhs {
			n.Rhs[i] = x.expr(n.Rhs[i])
		}
	case *ast.IncDecStmt:
		n.X = x.expr(n.X)
	case *ast.ReturnStmt:
		for i := range n.Results {
			n.Results[i] = x.expr(n.Results[i])
		}
	case *ast.DeferStmt:
		// the call has to stay a call: rewrite its parts, or replace close
		if e, ok := x.expr(n.Call).(*ast.CallExpr); ok {
			n.Call = e
		}
	case *ast.DeclStmt:
		x.exprsIn(n.Decl)
	case *ast.GenDecl:
		for _, s := range n.Specs {
			if v, ok := s.(*ast.ValueSpec); ok {
				if len(v.Names) == 2 && len(v.Values) == 1 {
					if u, ok := unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						v.Values[0] = call(x.vs("Recv2"), x.expr(u.X))
						continue
					}
				}
				for i := range v.Values {
					v.Values[i] = x.expr(v.Values[i])
				}
			}
		}
	case *ast.SendStmt: // in a for clause
		n.Chan = x.expr(n.Chan)
		n.Value = x.expr(n.Value)
	}
}

func (x *xform) expr(e ast.Expr) ast.Expr {
	switch t := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		x.block(t.Body)
	case *ast.UnaryExpr:
		t.X = x.expr(t.X)
		if t.Op == token.ARROW {
			return call(x.vs("Recv"), t.X)
		}
	case *ast.BinaryExpr:
		t.X, t.Y = x.expr(t.X), x.expr(t.Y)
	case *ast.ParenExpr:
		t.X = x.expr(t.X)
	case *ast.StarExpr:
		t.X = x.expr(t.X)
	case *ast.SelectorExpr:
		t.X = x.expr(t.X)
	case *ast.IndexExpr:
		t.X, t.Index = x.expr(t.X), x.expr(t.Index)
	case *ast.SliceExpr:
		t.X = x.expr(t.X)
		if t.Low != nil {
			t.Low = x.expr(t.Low)
		}
		if t.High != nil {
			t.High = x.expr(t.High)
		}
		if t.Max != nil {
			t.Max = x.expr(t.Max)
		}
	case *ast.TypeAssertExpr:
		t.X = x.expr(t.X)
	case *ast.KeyValueExpr:
		t.Key, t.Value = x.expr(t.Key), x.expr(t.Value)
	case *ast.CompositeLit:
		for i := range t.Elts {
			t.Elts[i] = x.expr(t.Elts[i])
		}
	case *ast.CallExpr:
		if id, ok := t.Fun.(*ast.Ident); ok {
			if b, ok := x.info.Uses[id].(*types.Builtin); ok && len(t.Args) == 1 && x.isChan(t.Args[0]) {
				switch b.Name() {
				case "close":
					return call(x.vs("Close"), x.expr(t.Args[0]))
				case "len":
					return call(x.vs("Len"), x.expr(t.Args[0]))
				}
			}
		}
		t.Fun = x.expr(t.Fun)
		for i := range t.Args {
			t.Args[i] = x.expr(t.Args[i])
		}
	}
	return e
}
