// instr writes an instrumented copy of the library's packages and the overlay
// file that makes the go command build it: every range over a map asks
// vrt.All for its order, every statement that uses mutable package-level state,
// a channel or the sync packages is preceded by a scheduling point, and locks
// are taken by vrt.Lock.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const vrtPath = "verifmc/vrt"

type edit struct {
	pos, end int // byte offsets
	text     string
	prio     int
}

type pkg struct {
	dir, path string
	files     []*ast.File
	names     []string
	src       [][]byte
	tp        *types.Package
	info      *types.Info
	busy      bool
}

var (
	fset   = token.NewFileSet()
	root   string
	module string
	pkgs   = map[string]*pkg{}
	std    types.Importer
)

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if p, ok := pkgs[path]; ok {
		check(p)
		return p.tp, nil
	}
	if i := strings.IndexByte(path, '/'); strings.Contains(path[:max(i, 0)], ".") {
		return types.NewPackage(path, filepath.Base(path)), nil // not needed
	}
	return std.Import(path)
}

func check(p *pkg) {
	if p.tp != nil || p.busy {
		return
	}
	p.busy = true
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp{}, Error: func(err error) { fmt.Fprintln(os.Stderr, "instr:", err) }}
	p.tp, _ = conf.Check(p.path, fset, p.files, p.info)
}

func main() {
	flag.StringVar(&root, "root", "/repo", "module directory")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	b, err := os.ReadFile(filepath.Join(root, "go.mod"))
	fatal(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			module = f[1]
		}
	}
	std = importer.ForCompiler(fset, "source", nil)
	for _, top := range []string{"xmp", "models"} {
		filepath.Walk(filepath.Join(root, top), func(path string, fi os.FileInfo, err error) error {
			fatal(err)
			if fi.IsDir() {
				load(path)
			}
			return nil
		})
	}
	var paths []string
	for k := range pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		check(pkgs[k])
	}
	mutable := map[types.Object]bool{}
	for _, k := range paths {
		findMutable(pkgs[k], mutable)
	}
	overlay := map[string]string{}
	for _, k := range paths {
		p := pkgs[k]
		ranges, yields := 0, 0
		for i, f := range p.files {
			in := &instr{p: p, f: f, src: p.src[i], mutable: mutable}
			in.run()
			ranges += in.ranges
			yields += in.yields
			if len(in.edits) == 0 {
				continue
			}
			dst := filepath.Join(*out, fmt.Sprintf("%s_%s", strings.ReplaceAll(k, "/", "_"), filepath.Base(p.names[i])))
			fatal(os.WriteFile(dst, in.result(), 0644))
			overlay[p.names[i]] = dst
		}
		dst := filepath.Join(*out, strings.ReplaceAll(k, "/", "_")+"_zz_vrt.go")
		text := fmt.Sprintf("package %s\n\nimport vrt %q\n\nfunc init() { vrt.Mark(%q, %d, %d) }\n", p.tp.Name(), vrtPath, k, ranges, yields)
		fatal(os.WriteFile(dst, []byte(text), 0644))
		overlay[filepath.Join(p.dir, "zz_vrt.go")] = dst
	}
	b, err = json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	fatal(err)
	fatal(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644))
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func load(dir string) {
	l, err := filepath.Glob(filepath.Join(dir, "*.go"))
	fatal(err)
	rel, _ := filepath.Rel(root, dir)
	p := &pkg{dir: dir, path: module + "/" + filepath.ToSlash(rel)}
	for _, n := range l {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(n)
		fatal(err)
		f, err := parser.ParseFile(fset, n, b, parser.ParseComments)
		fatal(err)
		if c := buildLine(f); c != nil {
			if x, err := constraint.Parse(c.Text); err == nil && !x.Eval(func(tag string) bool {
				return tag == "linux" || tag == "amd64" || tag == "unix" || tag == "gc" || strings.HasPrefix(tag, "go1.")
			}) {
				continue
			}
		}
		p.files = append(p.files, f)
		p.names = append(p.names, n)
		p.src = append(p.src, b)
	}
	if len(p.files) > 0 {
		pkgs[p.path] = p
	}
}

func buildLine(f *ast.File) *ast.Comment {
	for _, g := range f.Comments {
		for _, c := range g.List {
			if c.Pos() < f.Package && constraint.IsGoBuild(c.Text) {
				return c
			}
		}
	}
	return nil
}

// global returns the package-level variable of the library an identifier is.
func global(info *types.Info, id *ast.Ident) types.Object {
	o := info.Uses[id]
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || pkgs[v.Pkg().Path()] == nil || v.Parent() != v.Pkg().Scope() {
		return nil
	}
	return o
}

// base is the variable at the root of an expression.
func base(info *types.Info, e ast.Expr) types.Object {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.SelectorExpr:
			if o := global(info, x.Sel); o != nil {
				return o
			}
			e = x.X
		case *ast.Ident:
			return global(info, x)
		default:
			return nil
		}
	}
}

// findMutable collects the package-level variables which functions change.
func findMutable(p *pkg, m map[types.Object]bool) {
	mark := func(e ast.Expr) {
		if o := base(p.info, e); o != nil {
			m[o] = true
		}
	}
	for _, f := range p.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil && fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, e := range x.Lhs {
						mark(e)
					}
					// references to tables that are kept
					for _, e := range x.Rhs {
						if tv, ok := p.info.Types[e]; ok && tv.Type != nil {
							switch tv.Type.Underlying().(type) {
							case *types.Map, *types.Chan:
								mark(e)
							}
						}
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND || x.Op == token.ARROW {
						mark(x.X)
					}
				case *ast.SendStmt:
					mark(x.Chan)
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "close" || id.Name == "clear" || id.Name == "copy") && len(x.Args) > 0 {
						mark(x.Args[0])
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						if sel := p.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
							// the library's own methods have decision points inside
							if fn, ok := sel.Obj().(*types.Func); ok && fn.Pkg() != nil && pkgs[fn.Pkg().Path()] == nil {
								if _, ptr := fn.Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
									if tv := p.info.Types[s.X]; tv.Type != nil {
										if _, isPtr := tv.Type.Underlying().(*types.Pointer); !isPtr {
											mark(s.X)
										}
									}
								}
							}
						}
					}
				case *ast.RangeStmt:
					if x.Tok == token.ASSIGN {
						if x.Key != nil {
							mark(x.Key)
						}
						if x.Value != nil {
							mark(x.Value)
						}
					}
				}
				return true
			})
		}
	}
}

type instr struct {
	p       *pkg
	f       *ast.File
	src     []byte
	mutable map[types.Object]bool
	edits   []edit
	ranges  int
	yields  int
	upgrade bool
}

func (in *instr) off(p token.Pos) int { return fset.Position(p).Offset }

func (in *instr) insert(p token.Pos, text string, prio int) {
	o := in.off(p)
	in.edits = append(in.edits, edit{o, o, text, prio})
}

func (in *instr) site(n ast.Node) string {
	p := fset.Position(n.Pos())
	return strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
}

// shared says whether an expression uses shared state itself, outside of
// function literals and nested blocks.
func (in *instr) shared(nodes ...ast.Node) bool {
	found := false
	for _, n := range nodes {
		if n == nil {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.Ident:
				if o := global(in.p.info, x); o != nil && in.mutable[o] {
					found = true
				}
				if o, ok := in.p.info.Uses[x].(*types.Func); ok && isSync(o.Pkg()) {
					found = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					found = true
				}
			case *ast.SendStmt:
				found = true
			case *ast.SelectorExpr:
				if sel := in.p.info.Selections[x]; sel != nil {
					if f, ok := sel.Obj().(*types.Func); ok && isSync(f.Pkg()) {
						found = true
					}
				}
			}
			return !found
		})
	}
	return found
}

func isSync(p *types.Package) bool {
	return p != nil && (p.Path() == "sync" || p.Path() == "sync/atomic")
}

func (in *instr) stmts(l []ast.Stmt) {
	for _, s := range l {
		x := s
		if l, ok := x.(*ast.LabeledStmt); ok {
			x = l.Stmt
		}
		yield := false
		switch x := x.(type) {
		case *ast.IfStmt:
			yield = in.shared(x.Init, x.Cond)
			for e := x.Else; e != nil; {
				i, ok := e.(*ast.IfStmt)
				if !ok {
					break
				}
				yield = yield || in.shared(i.Init, i.Cond)
				e = i.Else
			}
		case *ast.ForStmt:
			yield = in.shared(x.Init, x.Cond, x.Post)
			if in.shared(x.Cond, x.Post) {
				in.insert(x.Body.Lbrace+1, " vrt.Y();", 0)
				in.yields++
			}
		case *ast.RangeStmt:
			yield = in.shared(x.X)
			if tv := in.p.info.Types[x.X]; tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Chan); ok {
					in.insert(x.Body.Lbrace+1, " vrt.Y();", 0)
					yield = true
				}
			}
		case *ast.SwitchStmt:
			yield = in.shared(x.Init, x.Tag)
			for _, c := range x.Body.List {
				for _, e := range c.(*ast.CaseClause).List {
					yield = yield || in.shared(e)
				}
			}
		case *ast.TypeSwitchStmt:
			yield = in.shared(x.Init, x.Assign)
		case *ast.SelectStmt:
			yield = true
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
		case *ast.DeferStmt:
			yield = in.shared(x.Call) && !in.syncCall(x.Call)
		default:
			yield = in.shared(s)
		}
		if yield {
			in.insert(s.Pos(), "vrt.Y(); ", 0)
			in.yields++
		}
	}
}

// syncCall says whether a call is one of a sync method.
func (in *instr) syncCall(c *ast.CallExpr) bool {
	if s, ok := c.Fun.(*ast.SelectorExpr); ok {
		if sel := in.p.info.Selections[s]; sel != nil {
			if f, ok := sel.Obj().(*types.Func); ok {
				return isSync(f.Pkg())
			}
		}
	}
	return false
}

func (in *instr) run() {
	for _, d := range in.f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			ast.Inspect(d, in.visit)
			continue
		}
		if fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, in.visit)
	}
}

func (in *instr) visit(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.BlockStmt:
		in.stmts(x.List)
	case *ast.CaseClause:
		in.stmts(x.Body)
	case *ast.CommClause:
		in.stmts(x.Body)
	case *ast.RangeStmt:
		tv := in.p.info.Types[x.X]
		if tv.Type == nil {
			break
		}
		if _, ok := tv.Type.Underlying().(*types.Map); ok {
			in.insert(x.X.Pos(), "vrt.All("+in.site(x)+", ", 1)
			in.insert(x.X.End(), ")", 1)
			in.upgrade = true
			in.ranges++
		}
	case *ast.CallExpr:
		s, ok := x.Fun.(*ast.SelectorExpr)
		if !ok {
			break
		}
		sel := in.p.info.Selections[s]
		if sel == nil || sel.Kind() != types.MethodVal {
			break
		}
		f, ok := sel.Obj().(*types.Func)
		if !ok || f.Pkg() == nil {
			break
		}
		recv := f.Type().(*types.Signature).Recv()
		if recv == nil {
			break
		}
		rt := recv.Type().String()
		switch {
		case f.Pkg().Path() == "reflect" && f.Name() == "MapKeys":
			in.insert(x.Pos(), "vrt.Values("+in.site(x)+", ", 1)
			in.insert(x.End(), ")", 1)
			in.ranges++
		case (rt == "*sync.Mutex" || rt == "*sync.RWMutex") && (f.Name() == "Lock" || f.Name() == "RLock"):
			amp := "&"
			if tv := in.p.info.Types[s.X]; tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Pointer); ok {
					amp = ""
				}
			}
			in.insert(x.Pos(), "vrt."+f.Name()+"("+amp, 1)
			in.edits = append(in.edits, edit{in.off(s.X.End()), in.off(x.End()), ")", 1})
		}
	}
	return true
}

func (in *instr) result() []byte {
	if in.upgrade {
		if c := buildLine(in.f); c != nil {
			in.edits = append(in.edits, edit{in.off(c.Pos()), in.off(c.End()), "//go:build (" + strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:build")) + ") && go1.23", 0})
		} else {
			in.edits = append(in.edits, edit{0, 0, "//go:build go1.23\n\n", -1})
		}
	}
	o := in.off(in.f.Name.End())
	in.edits = append(in.edits, edit{o, o, "; import vrt " + strconv.Quote(vrtPath), 0})
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].pos != in.edits[j].pos {
			return in.edits[i].pos < in.edits[j].pos
		}
		return in.edits[i].prio < in.edits[j].prio
	})
	var b []byte
	at := 0
	for _, e := range in.edits {
		b = append(b, in.src[at:e.pos]...)
		b = append(b, e.text...)
		at = e.end
	}
	b = append(b, in.src[at:]...)
	if strings.Count(string(b), "vrt.") == 0 {
		b = append(b, "\nvar _ = vrt.Sites\n"...)
	}
	return b
}
