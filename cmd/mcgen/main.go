// mcgen rewrites the packages of the repository under test into an overlay in
// which all synchronisation, map iteration, clock, file system and (in full
// mode) shared data accesses go through verif/mc.
//
// usage: mcgen -repo /repo -out DIR [-mode full|sync|none]
// It writes DIR/overlay.json for "go build -overlay".
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Imports    []string
	Export     string
	Module     *struct{ Path, Dir string }
	DepOnly    bool
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mcgen: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	mode := flag.String("mode", "full", "full, sync or none")
	flag.Parse()
	overlay := map[string]string{}
	if err := os.MkdirAll(*out, 0755); err != nil {
		die("%v", err)
	}

	// language version: generic calls need go1.18
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	re := regexp.MustCompile(`(?m)^go (\d+)\.(\d+)(\.\d+)?\s*$`)
	if m := re.FindSubmatch(gm); m != nil {
		minor, _ := strconv.Atoi(string(m[2]))
		if minor < 21 {
			gm = re.ReplaceAll(gm, []byte("go 1.21"))
			p := filepath.Join(*out, "go.mod.overlay")
			must(os.WriteFile(p, gm, 0644))
			overlay[filepath.Join(*repo, "go.mod")] = p
		}
	}

	if *mode != "none" {
		pk := list(*repo)
		exports := map[string]string{}
		for _, p := range pk {
			if p.Export != "" {
				exports[p.ImportPath] = p.Export
			}
		}
		for _, p := range pk {
			if p.Module == nil || p.Module.Dir != *repo || p.Name == "main" {
				continue
			}
			gen(p, exports, *out, *mode == "full", overlay)
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func list(repo string) []*listPkg {
	cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Imports,Export,Module,DepOnly",
		".", "./bytewriter", "./mmvdump")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var r []*listPkg
	d := json.NewDecoder(bytes.NewReader(o))
	for {
		p := &listPkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		r = append(r, p)
	}
	return r
}

func gen(p *listPkg, exports map[string]string, out string, full bool, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, a)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	g := &generator{fset: fset, info: info, pkg: pkg, full: full, shared: map[*types.Var]bool{}}
	for _, f := range files {
		g.capture(f)
	}
	prefix := strings.NewReplacer("/", "_", ".", "_").Replace(p.ImportPath)
	for i, f := range files {
		src := g.file(f)
		o := filepath.Join(out, prefix+"__"+p.GoFiles[i])
		must(os.WriteFile(o, src, 0644))
		overlay[filepath.Join(p.Dir, p.GoFiles[i])] = o
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport mc__ \"verif/mc\"\n\nvar mcB__ = mc__.RegisterSites([]string{\n", pkg.Name())
	for _, s := range g.sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	fmt.Fprintf(&b, "})\n")
	if g.polls(files) {
		fmt.Fprintf(&b, "\nvar _ = mc__.Polls()\n")
	}
	o := filepath.Join(out, prefix+"__zz_mc_sites.go")
	must(os.WriteFile(o, b.Bytes(), 0644))
	overlay[filepath.Join(p.Dir, "zz_mc_sites.go")] = o
}

// polls tells whether the package may look at the state of a lock, or what
// could serve as one, without waiting for it.
func (g *generator) polls(files []*ast.File) (found bool) {
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				if o := g.info.Uses[n]; o != nil && o.Pkg() != nil {
					switch o.Pkg().Path() {
					case "sync/atomic":
						found = true
					case "sync":
						if o.Name() == "TryLock" || o.Name() == "TryRLock" || o.Name() == "Map" {
							found = true
						}
					}
				}
			case *ast.SelectStmt:
				for _, c := range n.Body.List {
					if c.(*ast.CommClause).Comm == nil {
						found = true
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "len" && len(n.Args) == 1 {
					if _, ok := g.typ(n.Args[0]).Underlying().(*types.Chan); ok {
						found = true
					}
				}
			}
			return true
		})
	}
	return found
}

type generator struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	full   bool
	shared map[*types.Var]bool
	sites  []string
	ntmp   int
	useOS  bool
	keep   map[string]string // import local name -> symbol to reference
}

// ------------------------------------------------------------ capture analysis

func (g *generator) capture(f *ast.File) {
	decl := map[*types.Var]ast.Node{}
	var walk func(n ast.Node, fn ast.Node)
	walk = func(n ast.Node, fn ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.FuncLit:
				if m != n {
					walk(m, m)
					return false
				}
			case *ast.FuncDecl:
				if m != n {
					walk(m, m)
					return false
				}
			case *ast.Ident:
				if v, ok := g.info.Defs[m].(*types.Var); ok && !v.IsField() {
					decl[v] = fn
				}
				if v, ok := g.info.Uses[m].(*types.Var); ok && !v.IsField() {
					if v.Parent() == g.pkg.Scope() {
						g.shared[v] = true
					} else if d, ok := decl[v]; ok && d != fn {
						g.shared[v] = true
					}
				}
			case *ast.UnaryExpr:
				if m.Op == token.AND {
					g.markAddr(m.X)
				}
			case *ast.CallExpr:
				if s, ok := m.Fun.(*ast.SelectorExpr); ok {
					if sel := g.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
						if fn, ok := sel.Obj().(*types.Func); ok {
							if r := fn.Type().(*types.Signature).Recv(); r != nil {
								if _, ptr := r.Type().Underlying().(*types.Pointer); ptr {
									if _, xp := g.typ(s.X).Underlying().(*types.Pointer); !xp {
										g.markAddr(s.X)
									}
								}
							}
						}
					}
				}
			case *ast.SliceExpr:
				if _, ok := g.typ(m.X).Underlying().(*types.Array); ok {
					g.markAddr(m.X)
				}
			}
			return true
		})
	}
	walk(f, nil)
}

func (g *generator) markAddr(e ast.Expr) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		g.markAddr(e.X)
	case *ast.Ident:
		if v, ok := g.obj(e).(*types.Var); ok && !v.IsField() {
			g.shared[v] = true
		}
	case *ast.SelectorExpr:
		if s := g.info.Selections[e]; s != nil && s.Kind() == types.FieldVal && !s.Indirect() {
			g.markAddr(e.X)
		}
	case *ast.IndexExpr:
		if _, ok := g.typ(e.X).Underlying().(*types.Array); ok {
			g.markAddr(e.X)
		}
	}
}

func (g *generator) obj(id *ast.Ident) types.Object {
	if o := g.info.Uses[id]; o != nil {
		return o
	}
	return g.info.Defs[id]
}

func (g *generator) typ(e ast.Expr) types.Type {
	if t := g.info.TypeOf(e); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

func isSync(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return true
		}
	}
	return false
}

// ------------------------------------------------------------ file

var importMap = map[string]string{
	"sync":        "verif/mc/mcsync",
	"sync/atomic": "verif/mc/mcatomic",
}

var funcMap = map[string]string{
	"time.Now": "mc__.Now", "time.Since": "mc__.Since", "time.Until": "mc__.Until",
	"time.Sleep": "mc__.Sleep", "time.After": "mc__.After", "runtime.Gosched": "mc__.Gosched",
	"os.Stat": "mcos__.Stat", "os.Lstat": "mcos__.Lstat", "os.Remove": "mcos__.Remove",
	"os.RemoveAll": "mcos__.RemoveAll", "os.Mkdir": "mcos__.Mkdir", "os.MkdirAll": "mcos__.MkdirAll",
	"os.Rename": "mcos__.Rename", "os.Link": "mcos__.Link", "os.Symlink": "mcos__.Symlink",
	"os.Truncate": "mcos__.Truncate", "os.Chmod": "mcos__.Chmod", "os.ReadFile": "mcos__.ReadFile",
	"os.WriteFile": "mcos__.WriteFile", "os.OpenFile": "mcos__.OpenFile", "os.Open": "mcos__.Open",
	"os.Getpid": "mcos__.Getpid", "syscall.Getpid": "mcos__.Getpid",
	"os.Create": "mcos__.Create", "os.CreateTemp": "mcos__.CreateTemp",
	"io/ioutil.ReadFile": "mcos__.ReadFile", "io/ioutil.WriteFile": "mcos__.WriteFile",
	"io/ioutil.TempFile":                  "mcos__.CreateTemp",
	"github.com/edsrzf/mmap-go.Map":       "mcos__.Map",
	"github.com/edsrzf/mmap-go.MapRegion": "mcos__.MapRegion",
}

// methods by receiver type
var methodMap = map[string]string{
	"os.File.Write": "FWrite", "os.File.WriteString": "FWriteString", "os.File.WriteAt": "FWriteAt",
	"os.File.Truncate": "FTruncate", "os.File.Sync": "FSync", "os.File.Stat": "FStat", "os.File.Close": "FClose",
	"github.com/edsrzf/mmap-go.MMap.Unmap": "Unmap", "github.com/edsrzf/mmap-go.MMap.Flush": "Flush",
}

func (g *generator) file(f *ast.File) []byte {
	g.useOS = false
	g.keep = map[string]string{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if np, ok := importMap[path]; ok {
			if im.Name == nil {
				im.Name = ast.NewIdent(path[strings.LastIndex(path, "/")+1:])
			}
			im.Path.Value = strconv.Quote(np)
			im.EndPos = 0
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				d.Body = g.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i := range vs.Values {
						vs.Values[i] = g.expr(vs.Values[i])
					}
				}
			}
		}
	}
	f.Comments = nil
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), strip(f)); err != nil {
		die("print: %v", err)
	}
	src := b.Bytes()
	// insert imports after the package clause
	i := bytes.Index(src, []byte("\n")) + 1
	var o bytes.Buffer
	o.Write(src[:i])
	o.WriteString("\nimport mc__ \"verif/mc\"\n")
	if g.useOS {
		o.WriteString("import mcos__ \"verif/mc/mcos\"\n")
	}
	o.Write(src[i:])
	o.WriteString("\nvar _ = mc__.X\n")
	var ks []string
	for k := range g.keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&o, "var _ = %s.%s\n", k, g.keep[k])
	}
	return o.Bytes()
}

// strip returns the file; positions are ignored by printing with a fresh set.
func strip(f *ast.File) *ast.File {
	clearPos(f)
	return f
}

func (g *generator) site(n ast.Node) ast.Expr {
	p := g.fset.Position(n.Pos())
	g.sites = append(g.sites, fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
	return &ast.BinaryExpr{X: id("mcB__"), Op: token.ADD, Y: num(len(g.sites) - 1)}
}

func id(s string) *ast.Ident    { return ast.NewIdent(s) }
func num(n int) ast.Expr        { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }
func mc(name string) ast.Expr   { return &ast.SelectorExpr{X: id("mc__"), Sel: id(name)} }
func amp(e ast.Expr) ast.Expr   { return &ast.UnaryExpr{Op: token.AND, X: e} }
func paren(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: e} }
func star(e ast.Expr) ast.Expr  { return &ast.ParenExpr{X: &ast.StarExpr{X: e}} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func (g *generator) tmp() *ast.Ident {
	g.ntmp++
	return id(fmt.Sprintf("mcT%d__", g.ntmp))
}
func define(l []ast.Expr, r ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r}
}

// ------------------------------------------------------------ expressions

func (g *generator) isAddr(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		_, ok := g.obj(e).(*types.Var)
		return ok
	case *ast.ParenExpr:
		return g.isAddr(e.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := g.info.Selections[e]
		if s == nil {
			_, ok := g.info.Uses[e.Sel].(*types.Var)
			return ok
		}
		return s.Kind() == types.FieldVal && (s.Indirect() || g.isAddr(e.X))
	case *ast.IndexExpr:
		switch t := g.typ(e.X).Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			return g.isAddr(e.X)
		default:
			_ = t
		}
	}
	return false
}

// isShared: an addressable expression whose memory another thread may reach.
func (g *generator) isShared(e ast.Expr) bool {
	if !g.full || isSync(g.typ(e)) {
		return false
	}
	switch e := e.(type) {
	case *ast.Ident:
		v, ok := g.obj(e).(*types.Var)
		return ok && g.shared[v]
	case *ast.ParenExpr:
		return g.isShared(e.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := g.info.Selections[e]
		if s == nil {
			return false // variable of another package
		}
		return s.Kind() == types.FieldVal && (s.Indirect() || (g.isAddr(e.X) && g.isShared(e.X)))
	case *ast.IndexExpr:
		switch g.typ(e.X).Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return g.isAddr(e.X) && g.isShared(e.X)
		}
	}
	return false
}

func (g *generator) isMapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	ix, ok := e.(*ast.IndexExpr)
	if !ok {
		return nil, false
	}
	_, ok = g.typ(ix.X).Underlying().(*types.Map)
	return ix, ok
}

// addr rewrites the inside of an lvalue but not the access itself.
func (g *generator) addr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return paren(g.addr(e.X))
	case *ast.StarExpr:
		return &ast.StarExpr{X: g.expr(e.X)}
	case *ast.SelectorExpr:
		if g.info.Selections[e] == nil {
			return e
		}
		if _, ok := g.typ(e.X).Underlying().(*types.Pointer); ok || !g.isAddr(e.X) {
			return &ast.SelectorExpr{X: g.expr(e.X), Sel: e.Sel}
		}
		return &ast.SelectorExpr{X: g.addr(e.X), Sel: e.Sel}
	case *ast.IndexExpr:
		if _, ok := g.typ(e.X).Underlying().(*types.Array); ok && g.isAddr(e.X) {
			return &ast.IndexExpr{X: g.addr(e.X), Index: g.expr(e.Index)}
		}
		return &ast.IndexExpr{X: g.expr(e.X), Index: g.expr(e.Index)}
	}
	return e
}

func (g *generator) exprs(l []ast.Expr) []ast.Expr {
	o := make([]ast.Expr, len(l))
	for i, e := range l {
		o[i] = g.expr(e)
	}
	return o
}

func (g *generator) isType(e ast.Expr) bool {
	tv, ok := g.info.Types[e]
	return ok && tv.IsType()
}

func (g *generator) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := g.info.Types[e]; ok && (tv.IsType() || tv.Value != nil || tv.IsBuiltin()) {
		return e
	}
	switch e := e.(type) {
	case *ast.Ident:
		if g.isShared(e) {
			return star(call(mc("R"), g.site(e), amp(e)))
		}
		return e
	case *ast.ParenExpr:
		return paren(g.expr(e.X))
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			x := e.X
			for {
				p, ok := x.(*ast.ParenExpr)
				if !ok {
					break
				}
				x = p.X
			}
			if cl, ok := x.(*ast.CompositeLit); ok {
				return amp(g.expr(cl))
			}
			return amp(g.addr(x))
		case token.ARROW:
			if _, two := g.typ(e).(*types.Tuple); two {
				return call(mc("Recv2"), g.site(e), g.expr(e.X))
			}
			return call(mc("Recv"), g.site(e), g.expr(e.X))
		}
		return &ast.UnaryExpr{Op: e.Op, X: g.expr(e.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: g.expr(e.X), Op: e.Op, Y: g.expr(e.Y)}
	case *ast.StarExpr:
		if g.full && !isSync(g.typ(e)) {
			return star(call(mc("R"), g.site(e), g.expr(e.X)))
		}
		return &ast.StarExpr{X: g.expr(e.X)}
	case *ast.SelectorExpr:
		s := g.info.Selections[e]
		if s == nil {
			return g.qualified(e)
		}
		switch s.Kind() {
		case types.FieldVal:
			if g.isAddr(e) && g.isShared(e) {
				return star(call(mc("R"), g.site(e), amp(g.addr(e))))
			}
			if g.isAddr(e) {
				return g.addr(e)
			}
			return &ast.SelectorExpr{X: g.expr(e.X), Sel: e.Sel}
		case types.MethodVal:
			return g.method(e, s)
		}
		return e
	case *ast.IndexExpr:
		switch g.typ(e.X).Underlying().(type) {
		case *types.Map:
			m := g.expr(e.X)
			if g.full {
				m = call(mc("MR"), g.site(e), m)
			}
			return &ast.IndexExpr{X: m, Index: g.expr(e.Index)}
		case *types.Slice, *types.Pointer, *types.Array:
			if g.isAddr(e) && g.isShared(e) {
				return star(call(mc("R"), g.site(e), amp(g.addr(e))))
			}
			if g.isAddr(e) {
				return g.addr(e)
			}
			return &ast.IndexExpr{X: g.expr(e.X), Index: g.expr(e.Index)}
		case *types.Signature:
			return e
		}
		return &ast.IndexExpr{X: g.expr(e.X), Index: g.expr(e.Index)}
	case *ast.IndexListExpr:
		return e
	case *ast.SliceExpr:
		x := e.X
		if _, ok := g.typ(x).Underlying().(*types.Array); ok {
			x = g.addr(x)
		} else {
			x = g.expr(x)
		}
		return &ast.SliceExpr{X: x, Low: g.expr(e.Low), High: g.expr(e.High), Max: g.expr(e.Max), Slice3: e.Slice3}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: g.expr(e.X), Type: e.Type}
	case *ast.CompositeLit:
		_, isStruct := deref(g.typ(e)).Underlying().(*types.Struct)
		n := &ast.CompositeLit{Type: e.Type}
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if !isStruct {
					k = g.expr(k)
				}
				n.Elts = append(n.Elts, &ast.KeyValueExpr{Key: k, Value: g.expr(kv.Value)})
			} else {
				n.Elts = append(n.Elts, g.expr(x))
			}
		}
		return n
	case *ast.FuncLit:
		return &ast.FuncLit{Type: e.Type, Body: g.block(e.Body)}
	case *ast.CallExpr:
		return g.call(e)
	}
	return e
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// qualified handles pkg.Name.
func (g *generator) qualified(e *ast.SelectorExpr) ast.Expr {
	x, ok := e.X.(*ast.Ident)
	if !ok {
		return e
	}
	pn, ok := g.info.Uses[x].(*types.PkgName)
	if !ok {
		return e
	}
	r, ok := funcMap[pn.Imported().Path()+"."+e.Sel.Name]
	if !ok {
		return e
	}
	g.keep[x.Name] = e.Sel.Name
	i := strings.Index(r, ".")
	if r[:i] == "mcos__" {
		g.useOS = true
	}
	return &ast.SelectorExpr{X: id(r[:i]), Sel: id(r[i+1:])}
}

// method rewrites the receiver of a method selector.
func (g *generator) method(e *ast.SelectorExpr, s *types.Selection) ast.Expr {
	fn, _ := s.Obj().(*types.Func)
	if fn != nil {
		if r := fn.Type().(*types.Signature).Recv(); r != nil {
			if _, ptr := r.Type().(*types.Pointer); ptr {
				if _, xp := g.typ(e.X).Underlying().(*types.Pointer); !xp && g.isAddr(e.X) {
					return &ast.SelectorExpr{X: g.addr(e.X), Sel: e.Sel}
				}
			}
		}
	}
	if isSync(deref(g.typ(e.X))) && g.isAddr(e.X) {
		if _, xp := g.typ(e.X).Underlying().(*types.Pointer); !xp {
			return &ast.SelectorExpr{X: g.addr(e.X), Sel: e.Sel}
		}
	}
	return &ast.SelectorExpr{X: g.expr(e.X), Sel: e.Sel}
}

func (g *generator) call(e *ast.CallExpr) ast.Expr {
	fun := e.Fun
	for {
		p, ok := fun.(*ast.ParenExpr)
		if !ok {
			break
		}
		fun = p.X
	}
	if g.isType(fun) {
		return &ast.CallExpr{Fun: e.Fun, Args: g.exprs(e.Args)}
	}
	if ident, ok := fun.(*ast.Ident); ok {
		if _, ok := g.info.Uses[ident].(*types.Builtin); ok {
			return g.builtin(ident.Name, e)
		}
	}
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if s := g.info.Selections[se]; s != nil && s.Kind() == types.MethodVal {
			if fn, ok := s.Obj().(*types.Func); ok && fn.Pkg() != nil {
				if r := fn.Type().(*types.Signature).Recv(); r != nil {
					if n, ok := deref(r.Type()).(*types.Named); ok {
						if repl, ok := methodMap[fn.Pkg().Path()+"."+n.Obj().Name()+"."+fn.Name()]; ok {
							// only when X itself is that type (not promoted through a field)
							xt := g.typ(se.X)
							if types.Identical(deref(xt), n) {
								g.useOS = true
								_, want := r.Type().Underlying().(*types.Pointer)
								_, have := xt.Underlying().(*types.Pointer)
								if repl == "Flush" {
									want = true
								}
								recv := g.expr(se.X)
								if want && !have {
									recv = amp(g.addr(se.X))
								}
								return &ast.CallExpr{Fun: &ast.SelectorExpr{X: id("mcos__"), Sel: id(repl)},
									Args: append([]ast.Expr{recv}, g.exprs(e.Args)...), Ellipsis: e.Ellipsis}
							}
						}
					}
				}
			}
		}
	}
	if r := g.external(e, fun); r != nil {
		return r
	}
	return &ast.CallExpr{Fun: g.expr(e.Fun), Args: g.exprs(e.Args), Ellipsis: e.Ellipsis}
}

// isPlainObject tells the types of the standard library whose objects need a
// lock when several goroutines use them: each object counts as one location.
func isPlainObject(t types.Type) bool {
	n, ok := types.Unalias(deref(types.Unalias(t))).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	name := n.Obj().Name()
	switch path := n.Obj().Pkg().Path(); path {
	case "hash", "bytes", "bufio", "container/list", "container/ring", "container/heap", "math/big", "text/tabwriter":
		return true
	case "strings":
		return name == "Builder" || name == "Reader"
	case "math/rand", "math/rand/v2":
		return name == "Rand"
	}
	return false
}

var observer = regexp.MustCompile(`^(Len|Cap|String|Bytes|Size|BlockSize|Available|Buffered|Front|Back|Next|Prev|Text|Err|Cmp|Sign|Sum\d*)$`)

var mutator = regexp.MustCompile(`^(Record|Reset|Merge|Import|Set|Write|Add|Update|Insert|Delete|Remove|Push|Pop|Inc|Dec)`)

// external instruments calls into packages that are not rewritten themselves:
// objects of hdrhistogram count as one memory location that its methods read
// or write, and byte order stores as stores into their slice.
func (g *generator) external(e *ast.CallExpr, fun ast.Expr) ast.Expr {
	if !g.full {
		return nil
	}
	se, ok := fun.(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	s := g.info.Selections[se]
	if s == nil || s.Kind() != types.MethodVal {
		return nil
	}
	fn, ok := s.Obj().(*types.Func)
	if !ok || fn.Pkg() == nil {
		return nil
	}
	if isPlainObject(g.typ(se.X)) {
		f := "OW"
		if observer.MatchString(fn.Name()) {
			f = "OR"
		}
		var x ast.Expr
		switch g.typ(se.X).Underlying().(type) {
		case *types.Pointer:
			x = call(mc(f), g.site(e), g.expr(se.X))
		case *types.Interface:
			x = call(mc(f+"I"), g.site(e), g.expr(se.X))
		default:
			if !g.isAddr(se.X) || !g.isShared(se.X) {
				return nil
			}
			x = call(mc(f), g.site(e), amp(g.addr(se.X)))
		}
		return &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: se.Sel}, Args: g.exprs(e.Args), Ellipsis: e.Ellipsis}
	}
	switch path := fn.Pkg().Path(); {
	case path == "encoding/binary" && len(e.Args) == 2:
		switch fn.Name() {
		case "PutUint16", "PutUint32", "PutUint64":
			return call(mc(fn.Name()), g.site(e), g.expr(se.X), g.expr(e.Args[0]), g.expr(e.Args[1]))
		}
	case strings.Contains(path, "hdrhistogram"):
		if len(s.Index()) != 1 {
			return nil
		}
		if _, ok := g.typ(se.X).Underlying().(*types.Pointer); !ok {
			return nil
		}
		f := "OR"
		if mutator.MatchString(fn.Name()) {
			f = "OW"
		}
		return &ast.CallExpr{Fun: &ast.SelectorExpr{X: call(mc(f), g.site(e), g.expr(se.X)), Sel: se.Sel},
			Args: g.exprs(e.Args), Ellipsis: e.Ellipsis}
	}
	return nil
}

func (g *generator) builtin(name string, e *ast.CallExpr) ast.Expr {
	isMap := func(x ast.Expr) bool { _, ok := g.typ(x).Underlying().(*types.Map); return ok }
	switch name {
	case "new":
		return e
	case "make":
		return &ast.CallExpr{Fun: e.Fun, Args: append([]ast.Expr{e.Args[0]}, g.exprs(e.Args[1:])...)}
	case "len", "cap":
		if g.full && isMap(e.Args[0]) {
			return call(e.Fun, call(mc("MR"), g.site(e), g.expr(e.Args[0])))
		}
	case "delete":
		if g.full {
			return call(e.Fun, call(mc("MW"), g.site(e), g.expr(e.Args[0])), g.expr(e.Args[1]))
		}
	case "clear":
		if g.full && isMap(e.Args[0]) {
			return call(e.Fun, call(mc("MW"), g.site(e), g.expr(e.Args[0])))
		}
	case "close":
		return call(mc("Close"), g.site(e), g.expr(e.Args[0]))
	case "copy":
		f := "Copy"
		if b, ok := g.typ(e.Args[1]).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			f = "CopyS"
		}
		return call(mc(f), g.site(e), g.expr(e.Args[0]), g.expr(e.Args[1]))
	case "append":
		args := g.exprs(e.Args)
		if g.full && e.Ellipsis.IsValid() {
			if _, ok := g.typ(e.Args[len(args)-1]).Underlying().(*types.Slice); ok {
				if tv := g.info.Types[e.Args[len(args)-1]]; !tv.IsNil() {
					args[len(args)-1] = call(mc("RS"), g.site(e), args[len(args)-1])
				}
			}
		}
		return &ast.CallExpr{Fun: e.Fun, Args: args, Ellipsis: e.Ellipsis}
	}
	return &ast.CallExpr{Fun: e.Fun, Args: g.exprs(e.Args), Ellipsis: e.Ellipsis}
}

// ------------------------------------------------------------ statements

func (g *generator) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: g.stmts(b.List)}
}

func (g *generator) stmts(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		o = append(o, g.stmt(s)...)
	}
	return o
}

func one(s []ast.Stmt) ast.Stmt {
	if len(s) == 1 {
		return s[0]
	}
	return &ast.BlockStmt{List: s}
}

// simple rewrites a statement in a simple-statement position.
func (g *generator) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := g.stmt(s)
	if as, ok := s.(*ast.AssignStmt); ok && as.Tok == token.DEFINE {
		return r[0]
	}
	if len(r) == 1 {
		if _, ok := r[0].(*ast.BlockStmt); !ok {
			return r[0]
		}
	}
	if b, ok := r[0].(*ast.BlockStmt); ok && len(r) == 1 {
		return &ast.ExprStmt{X: call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: b})}
	}
	return &ast.ExprStmt{X: call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: r}})}
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (g *generator) needsHook(e ast.Expr) bool {
	if isBlank(e) {
		return false
	}
	if _, ok := g.isMapIndex(e); ok {
		return g.full
	}
	return g.isAddr(e) && g.isShared(e)
}

func (g *generator) assign(s *ast.AssignStmt) []ast.Stmt {
	switch {
	case s.Tok == token.DEFINE:
		r := []ast.Stmt{&ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: g.exprs(s.Rhs)}}
		for _, l := range s.Lhs {
			if i, ok := l.(*ast.Ident); ok && g.info.Defs[i] == nil && g.needsHook(l) {
				r = append(r, &ast.ExprStmt{X: call(mc("RW"), g.site(l), amp(i))})
			}
		}
		return r
	case s.Tok != token.ASSIGN:
		l := s.Lhs[0]
		rhs := g.expr(s.Rhs[0])
		if ix, ok := g.isMapIndex(l); ok {
			m := g.expr(ix.X)
			if g.full {
				m = call(mc("MW"), g.site(l), m)
			}
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{&ast.IndexExpr{X: m, Index: g.expr(ix.Index)}}, Tok: s.Tok, Rhs: []ast.Expr{rhs}}}
		}
		if g.needsHook(l) {
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{star(call(mc("RW"), g.site(l), amp(g.addr(l))))}, Tok: s.Tok, Rhs: []ast.Expr{rhs}}}
		}
		return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{g.addr(l)}, Tok: s.Tok, Rhs: []ast.Expr{rhs}}}
	}
	hook := false
	for _, l := range s.Lhs {
		if g.needsHook(l) {
			hook = true
		}
	}
	if len(s.Lhs) == 1 {
		l, r := s.Lhs[0], s.Rhs[0]
		if !hook {
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{g.addr(l)}, Tok: s.Tok, Rhs: []ast.Expr{g.expr(r)}}}
		}
		if ix, ok := g.isMapIndex(l); ok {
			return []ast.Stmt{&ast.ExprStmt{X: call(call(mc("MAssign"), g.site(l), g.expr(ix.X), g.expr(ix.Index)), g.expr(r))}}
		}
		return []ast.Stmt{&ast.ExprStmt{X: call(call(mc("Assign"), g.site(l), amp(g.addr(l))), g.expr(r))}}
	}
	if !hook {
		var ls []ast.Expr
		for _, l := range s.Lhs {
			ls = append(ls, g.addr(l))
		}
		return []ast.Stmt{&ast.AssignStmt{Lhs: ls, Tok: s.Tok, Rhs: g.exprs(s.Rhs)}}
	}
	// tuple assignment: fix operands, evaluate, store
	var pre, post []ast.Stmt
	typed := make([]func(ast.Expr) ast.Expr, len(s.Lhs))
	store := make([]func(ast.Expr) ast.Stmt, len(s.Lhs))
	for i, l := range s.Lhs {
		l := l
		if isBlank(l) {
			store[i] = func(v ast.Expr) ast.Stmt {
				return &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
			}
			typed[i] = func(v ast.Expr) ast.Expr { return v }
			continue
		}
		if ix, ok := g.isMapIndex(l); ok {
			m, k := g.tmp(), g.tmp()
			pre = append(pre, define([]ast.Expr{m}, g.expr(ix.X)), define([]ast.Expr{k}, call(call(mc("TmpK"), m), g.expr(ix.Index))))
			typed[i] = func(v ast.Expr) ast.Expr { return call(call(mc("TmpM"), m), v) }
			store[i] = func(v ast.Expr) ast.Stmt {
				return &ast.ExprStmt{X: call(call(mc("MAssign"), g.site(l), m, k), v)}
			}
			continue
		}
		p := g.tmp()
		pre = append(pre, define([]ast.Expr{p}, amp(g.addr(l))))
		typed[i] = func(v ast.Expr) ast.Expr { return call(call(mc("Tmp"), p), v) }
		if g.needsHook(l) {
			store[i] = func(v ast.Expr) ast.Stmt { return &ast.ExprStmt{X: call(call(mc("Assign"), g.site(l), p), v)} }
		} else {
			store[i] = func(v ast.Expr) ast.Stmt {
				return &ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: p}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
			}
		}
	}
	var ts []ast.Expr
	for range s.Lhs {
		ts = append(ts, g.tmp())
	}
	if len(s.Rhs) == len(s.Lhs) {
		for i, r := range s.Rhs {
			pre = append(pre, define([]ast.Expr{ts[i]}, typed[i](g.expr(r))))
		}
	} else {
		pre = append(pre, define(ts, g.expr(s.Rhs[0])))
	}
	for i := range s.Lhs {
		post = append(post, store[i](ts[i]))
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, post...)}}
}

func (g *generator) stmt(s ast.Stmt) []ast.Stmt {
	single := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		return single(&ast.ExprStmt{X: g.expr(s.X)})
	case *ast.AssignStmt:
		return g.assign(s)
	case *ast.IncDecStmt:
		if ix, ok := g.isMapIndex(s.X); ok {
			m := g.expr(ix.X)
			if g.full {
				m = call(mc("MW"), g.site(s), m)
			}
			return single(&ast.IncDecStmt{X: &ast.IndexExpr{X: m, Index: g.expr(ix.Index)}, Tok: s.Tok})
		}
		if g.needsHook(s.X) {
			return single(&ast.IncDecStmt{X: star(call(mc("RW"), g.site(s), amp(g.addr(s.X)))), Tok: s.Tok})
		}
		return single(&ast.IncDecStmt{X: g.addr(s.X), Tok: s.Tok})
	case *ast.SendStmt:
		return single(&ast.ExprStmt{X: call(call(mc("Send"), g.site(s), g.expr(s.Chan)), g.expr(s.Value))})
	case *ast.GoStmt:
		return g.goStmt(s)
	case *ast.DeferStmt:
		if c, ok := g.expr(s.Call).(*ast.CallExpr); ok {
			return single(&ast.DeferStmt{Call: c})
		}
		return single(s)
	case *ast.ReturnStmt:
		return single(&ast.ReturnStmt{Results: g.exprs(s.Results)})
	case *ast.BlockStmt:
		return single(g.block(s))
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
			return g.selectStmt(sel, s.Label)
		}
		inner := g.stmt(s.Stmt)
		if len(inner) == 0 {
			return single(&ast.LabeledStmt{Label: s.Label, Stmt: &ast.EmptyStmt{}})
		}
		return append([]ast.Stmt{&ast.LabeledStmt{Label: s.Label, Stmt: inner[0]}}, inner[1:]...)
	case *ast.IfStmt:
		n := &ast.IfStmt{Init: g.simple(s.Init), Cond: g.expr(s.Cond), Body: g.block(s.Body)}
		if s.Else != nil {
			n.Else = g.stmt(s.Else)[0]
		}
		return single(n)
	case *ast.ForStmt:
		return single(&ast.ForStmt{Init: g.simple(s.Init), Cond: g.expr(s.Cond), Post: g.simple(s.Post), Body: g.block(s.Body)})
	case *ast.SwitchStmt:
		return single(&ast.SwitchStmt{Init: g.simple(s.Init), Tag: g.expr(s.Tag), Body: g.clauses(s.Body)})
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Init: g.simple(s.Init), Body: g.clauses(s.Body)}
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			n.Assign = &ast.ExprStmt{X: g.expr(a.X)}
		case *ast.AssignStmt:
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: g.exprs(a.Rhs)}
		}
		return single(n)
	case *ast.SelectStmt:
		return g.selectStmt(s, nil)
	case *ast.RangeStmt:
		return single(g.rangeStmt(s))
	case *ast.DeclStmt:
		if d, ok := s.Decl.(*ast.GenDecl); ok && d.Tok == token.VAR {
			for _, sp := range d.Specs {
				vs := sp.(*ast.ValueSpec)
				vs.Values = g.exprs(vs.Values)
				if len(vs.Values) == 0 {
					vs.Values = nil
				}
			}
		}
		return single(s)
	}
	return single(s)
}

func (g *generator) clauses(b *ast.BlockStmt) *ast.BlockStmt {
	n := &ast.BlockStmt{}
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		nc := &ast.CaseClause{Body: g.stmts(cc.Body)}
		if cc.List != nil {
			nc.List = g.exprs(cc.List)
		}
		n.List = append(n.List, nc)
	}
	return n
}

func (g *generator) goStmt(s *ast.GoStmt) []ast.Stmt {
	c := s.Call
	site := g.site(s)
	var pre []ast.Stmt
	fun := c.Fun
	for {
		p, ok := fun.(*ast.ParenExpr)
		if !ok {
			break
		}
		fun = p.X
	}
	thunk := func(body ast.Stmt) ast.Expr {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}}
	}
	if lit, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return []ast.Stmt{&ast.ExprStmt{X: call(mc("Go"), site, g.expr(lit))}}
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := g.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args[i] = a
			continue
		}
		t := g.tmp()
		pre = append(pre, define([]ast.Expr{t}, g.expr(a)))
		args[i] = t
	}
	var f ast.Expr
	switch fn := fun.(type) {
	case *ast.FuncLit:
		f = g.expr(fn)
	case *ast.Ident:
		switch g.info.Uses[fn].(type) {
		case *types.Func:
			f = fn
		case *types.Builtin:
			if fn.Name == "close" {
				return []ast.Stmt{&ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: call(mc("Go"), site,
					thunk(&ast.ExprStmt{X: call(mc("Close"), g.site(s), args[0])}))})}}
			}
			f = fn
		}
	}
	if f == nil {
		// evaluate the function value (binding a method receiver) now
		t := g.tmp()
		if se, ok := fun.(*ast.SelectorExpr); ok && g.info.Selections[se] == nil {
			f = g.expr(fun)
		} else {
			pre = append([]ast.Stmt{define([]ast.Expr{t}, g.expr(fun))}, pre...)
			f = t
		}
	}
	body := &ast.ExprStmt{X: &ast.CallExpr{Fun: f, Args: args, Ellipsis: c.Ellipsis}}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: call(mc("Go"), site, thunk(body))})}}
}

func (g *generator) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	site := g.site(s)
	body := g.block(s.Body)
	use := func(e ast.Expr) bool { return e != nil && !isBlank(e) }
	note := func(e ast.Expr) {
		if use(e) && g.needsHook(e) {
			if _, ok := e.(*ast.Ident); ok {
				body.List = append([]ast.Stmt{&ast.ExprStmt{X: call(mc("RW"), g.site(s), amp(e))}}, body.List...)
			}
		}
	}
	ref := func(e ast.Expr) ast.Expr {
		if use(e) {
			return amp(g.addr(e))
		}
		return id("nil")
	}
	blank := func(e ast.Expr) ast.Expr {
		if use(e) {
			return e
		}
		return id("_")
	}
	x := g.expr(s.X)
	switch t := g.typ(s.X).Underlying().(type) {
	case *types.Map:
		it := g.tmp()
		note(s.Key)
		note(s.Value)
		if s.Tok == token.DEFINE && (use(s.Key) || use(s.Value)) {
			return &ast.ForStmt{Init: define([]ast.Expr{it, blank(s.Key), blank(s.Value)}, call(mc("RangeMap"), site, x)),
				Cond: call(&ast.SelectorExpr{X: it, Sel: id("Next")}, ref(s.Key), ref(s.Value)), Body: body}
		}
		return &ast.ForStmt{Init: define([]ast.Expr{it}, call(mc("RangeMap0"), site, x)),
			Cond: call(&ast.SelectorExpr{X: it, Sel: id("Next")}, ref(s.Key), ref(s.Value)), Body: body}
	case *types.Chan:
		it := g.tmp()
		note(s.Key)
		if s.Tok == token.DEFINE && use(s.Key) {
			return &ast.ForStmt{Init: define([]ast.Expr{it, s.Key}, call(mc("RangeChan"), site, x)),
				Cond: call(&ast.SelectorExpr{X: it, Sel: id("Next")}, ref(s.Key)), Body: body}
		}
		return &ast.ForStmt{Init: define([]ast.Expr{it}, call(mc("RangeChan0"), site, x)),
			Cond: call(&ast.SelectorExpr{X: it, Sel: id("Next")}, ref(s.Key)), Body: body}
	case *types.Slice:
		if g.full && use(s.Value) {
			x = call(mc("RS"), site, x)
		}
		_ = t
	}
	n := &ast.RangeStmt{Key: s.Key, Value: s.Value, Tok: s.Tok, X: x, Body: body}
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			n.Key = g.addr(s.Key)
		}
		if s.Value != nil {
			n.Value = g.addr(s.Value)
		}
	}
	note(s.Key)
	note(s.Value)
	return n
}

func (g *generator) selectStmt(s *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	var pre []ast.Stmt
	sw := &ast.BlockStmt{}
	hasDef := "false"
	args := []ast.Expr{g.site(s), nil}
	k := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		var head []ast.Stmt
		recv := func(e ast.Expr) *ast.Ident {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			t := g.tmp()
			pre = append(pre, define([]ast.Expr{t}, call(mc("CaseRecv"), g.expr(e.(*ast.UnaryExpr).X))))
			return t
		}
		switch m := cc.Comm.(type) {
		case nil:
			hasDef = "true"
			nc.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: num(1)}}
		case *ast.SendStmt:
			t := g.tmp()
			pre = append(pre, define([]ast.Expr{t}, call(call(mc("CaseSend"), g.expr(m.Chan)), g.expr(m.Value))))
			args = append(args, t)
		case *ast.ExprStmt:
			args = append(args, recv(m.X))
		case *ast.AssignStmt:
			t := recv(m.Rhs[0])
			args = append(args, t)
			rhs := []ast.Expr{&ast.SelectorExpr{X: t, Sel: id("Val")}}
			if len(m.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: t, Sel: id("Ok")})
			}
			if m.Tok == token.DEFINE {
				head = append(head, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: rhs})
			} else {
				for i, l := range m.Lhs {
					if g.needsHook(l) {
						if ix, ok := g.isMapIndex(l); ok {
							head = append(head, &ast.ExprStmt{X: call(call(mc("MAssign"), g.site(l), g.expr(ix.X), g.expr(ix.Index)), rhs[i])})
							continue
						}
						head = append(head, &ast.ExprStmt{X: call(call(mc("Assign"), g.site(l), amp(g.addr(l))), rhs[i])})
					} else {
						head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{g.addr(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs[i]}})
					}
				}
			}
		}
		if cc.Comm != nil {
			nc.List = []ast.Expr{num(k)}
			k++
		}
		nc.Body = append(head, g.stmts(cc.Body)...)
		sw.List = append(sw.List, nc)
	}
	args[1] = id(hasDef)
	var st ast.Stmt = &ast.SwitchStmt{Tag: call(mc("Select"), args...), Body: sw}
	if label != nil {
		st = &ast.LabeledStmt{Label: label, Stmt: st}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, st)}}
}
