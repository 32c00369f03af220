// vinstr rewrites copies of the library's source files so that the checks can
// control what ordinary Go leaves to chance: the order of map iterations, the
// clock, and the interleaving of goroutines. It prints overlay lines
// ("path in the repository":"rewritten copy"); the repository is only read.
//
//	vinstr -repo DIR -out DIR -mode map,clock|sync
//
// map    range over a map        -> range over zzvrt.Range(site, m)
//
//	maps.Keys/Values/All(m) -> zzvrt.MapKeys/... (site, m)
//
// clock  time.Now/Since/Until    -> zzvrt.Now/Since/Until
// sync   sync.Mutex, RWMutex, Once, WaitGroup -> zzvrt's, and scheduling points
//
//	at function entries and before statements that touch shared variables
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Module     *struct{ Path string }
}

type edit struct {
	at, end int
	text    string
}

var (
	repo  = flag.String("repo", "/repo", "")
	out   = flag.String("out", "", "")
	mode  = flag.String("mode", "map,clock", "")
	tags  = flag.String("tags", "", "")
	sites []string
)

func die(v ...any) { fmt.Fprintln(os.Stderr, append([]any{"vinstr:"}, v...)...); os.Exit(1) }

func main() {
	flag.Parse()
	doMap, doClock, doSync := strings.Contains(*mode, "map"), strings.Contains(*mode, "clock"), strings.Contains(*mode, "sync")
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Module"}
	if *tags != "" {
		args = append(args, "-tags", *tags)
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	bt, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	exports := map[string]string{}
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(bt))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, p)
	}
	root := pkgs[len(pkgs)-1] // -deps lists the package itself last
	module := root.ImportPath
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	os.MkdirAll(*out, 0o755)
	var lines []string
	for _, p := range pkgs {
		if p.ImportPath != module && !strings.HasPrefix(p.ImportPath, module+"/") {
			continue
		}
		srcs := map[*ast.File][]byte{}
		names := map[*ast.File]string{}
		var files []*ast.File
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(path)
			if err != nil {
				die(err)
			}
			af, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution)
			if err != nil {
				die(err)
			}
			files = append(files, af)
			srcs[af], names[af] = src, path
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die(p.ImportPath, err)
		}
		isData := len(files) > 60
		for _, af := range files {
			if isData && !bytes.Contains(srcs[af], []byte("range ")) && !bytes.Contains(srcs[af], []byte("sync.")) && !bytes.Contains(srcs[af], []byte("time.Now")) {
				continue
			}
			r := &rewriter{fset: fset, info: info, src: srcs[af], file: af, pkg: tp, module: module, rel: strings.TrimPrefix(names[af], *repo+"/")}
			if doMap {
				r.maps()
			}
			if doClock {
				r.clock()
			}
			if doSync {
				r.sync()
			}
			if len(r.edits) == 0 {
				continue
			}
			dst := filepath.Join(*out, strings.ReplaceAll(r.rel, "/", "__"))
			if err := os.WriteFile(dst, r.apply(module), 0o644); err != nil {
				die(err)
			}
			lines = append(lines, fmt.Sprintf("%q:%q", names[af], dst))
		}
	}
	// what the points are, for the reports
	tbl, _ := json.Marshal(sites)
	os.WriteFile(filepath.Join(*out, "sites.json"), tbl, 0o644)
	fmt.Println(strings.Join(lines, ",\n"))
}

type rewriter struct {
	fset   *token.FileSet
	info   *types.Info
	src    []byte
	file   *ast.File
	pkg    *types.Package
	module string
	rel    string
	edits  []edit
	keep   map[string]bool // packages that need a use
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) site(p token.Pos) int {
	sites = append(sites, fmt.Sprintf("%s:%d", r.rel, r.fset.Position(p).Line))
	return len(sites) - 1
}

// sharedSite is a site that touches shared variables.
func (r *rewriter) sharedSite(p token.Pos) int {
	i := r.site(p)
	sites[i] = "!" + sites[i]
	return i
}

func (r *rewriter) put(at, end int, text string) { r.edits = append(r.edits, edit{at, end, text}) }

// pkgSel says whether the expression is <package path>.<name>.
func (r *rewriter) pkgSel(e ast.Expr, path string) (string, *ast.SelectorExpr) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return "", nil
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return "", nil
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok || pn.Imported().Path() != path {
		return "", nil
	}
	return s.Sel.Name, s
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		u, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok || u.NumEmbeddeds() != 1 {
			return false
		}
		un, ok := u.EmbeddedType(0).(*types.Union)
		return ok && un.Len() == 1 && isMap(un.Term(0).Type())
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) maps() {
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.RangeStmt:
			if isMap(r.info.TypeOf(x.X)) {
				id := r.site(x.Pos())
				if x.Tok == token.ASSIGN { // for k = range m
					// the same with an iterator
				}
				r.put(r.off(x.X.Pos()), r.off(x.X.Pos()), fmt.Sprintf("zzvrt.Range(%d, ", id))
				r.put(r.off(x.X.End()), r.off(x.X.End()), ")")
			}
		case *ast.CallExpr:
			name, sel := r.pkgSel(x.Fun, "maps")
			if sel != nil && len(x.Args) == 1 && (name == "Keys" || name == "Values" || name == "All") {
				id := r.site(x.Pos())
				r.put(r.off(sel.Pos()), r.off(sel.End()), "zzvrt.Map"+name)
				r.put(r.off(x.Args[0].Pos()), r.off(x.Args[0].Pos()), fmt.Sprintf("%d, ", id))
				r.use("maps.Keys[map[int]int]")
			}
		}
		return true
	})
}

func (r *rewriter) use(expr string) {
	if r.keep == nil {
		r.keep = map[string]bool{}
	}
	r.keep[expr] = true
}

func (r *rewriter) clock() {
	ast.Inspect(r.file, func(n ast.Node) bool {
		e, ok := n.(ast.Expr)
		if !ok {
			return true
		}
		if name, sel := r.pkgSel(e, "time"); sel != nil && (name == "Now" || name == "Since" || name == "Until") {
			r.put(r.off(sel.Pos()), r.off(sel.End()), "zzvrt."+name)
			r.use(sel.X.(*ast.Ident).Name + ".Now")
		}
		return true
	})
}

// shared says whether evaluating the node itself (not the statements in it) may
// touch what goroutines share.
func (r *rewriter) shared(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if found {
			return false
		}
		switch x := m.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.Ident:
			v, ok := r.info.Uses[x].(*types.Var)
			if ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() && (v.Pkg().Path() == r.module || strings.HasPrefix(v.Pkg().Path(), r.module+"/")) && mutable(v.Type()) {
				found = true
			}
		case *ast.SelectorExpr:
			if s := r.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
				t := s.Recv()
				p, isPtr := t.Underlying().(*types.Pointer)
				if isPtr {
					t = p.Elem()
				}
				if nt, ok := t.(*types.Named); ok && isPtr && nt.Obj().Pkg() != nil && strings.HasPrefix(nt.Obj().Pkg().Path(), r.module) {
					switch nt.Obj().Name() {
					case "Parser", "LocaleData":
						if nt.Obj().Name() != "Parser" || nt.Obj().Pkg().Path() == r.module {
							found = true
						}
					default:
						if hasLock(nt, 0) {
							found = true
						}
					}
				}
			}
		}
		return true
	})
	return found
}

func hasLock(t types.Type, depth int) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Type()
		if n, ok := f.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync") {
			return true
		}
		if hasLock(f, depth+1) {
			return true
		}
	}
	return false
}

// mutable leaves out what is only read: patterns, errors and plain values.
func mutable(t types.Type) bool {
	s := t.String()
	return !strings.HasSuffix(s, "Regexp") && s != "error" && s != "string"
}

func (r *rewriter) sync() {
	for _, d := range r.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		r.put(r.off(fd.Body.Lbrace)+1, r.off(fd.Body.Lbrace)+1, fmt.Sprintf(" zzvrt.Enter(%d);", r.site(fd.Pos())))
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			var list []ast.Stmt
			switch x := n.(type) {
			case *ast.BlockStmt:
				list = x.List
			case *ast.CaseClause:
				list = x.Body
			case *ast.CommClause:
				list = x.Body
			}
			for _, s := range list {
				switch s.(type) {
				case *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				if r.shared(s) {
					r.put(r.off(s.Pos()), r.off(s.Pos()), fmt.Sprintf("zzvrt.Point(%d); ", r.sharedSite(s.Pos())))
				}
			}
			return true
		})
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		if _, ok := n.(*ast.GoStmt); ok {
			die("the library starts goroutines:", r.rel) // they can't be scheduled
		}
		e, ok := n.(ast.Expr)
		if !ok {
			return true
		}
		if name, sel := r.pkgSel(e, "sync"); sel != nil {
			switch name {
			case "Mutex", "RWMutex", "Once", "WaitGroup", "OnceFunc", "OnceValue", "OnceValues":
				r.put(r.off(sel.X.Pos()), r.off(sel.X.End()), "zzvrt")
				r.use("new(" + sel.X.(*ast.Ident).Name + ".Mutex)")
			}
		}
		return true
	})
}

func (r *rewriter) apply(module string) []byte {
	sort.SliceStable(r.edits, func(a, b int) bool { return r.edits[a].at < r.edits[b].at })
	var b bytes.Buffer
	last := 0
	for _, e := range r.edits {
		if e.at < last {
			die("overlapping edits in", r.rel)
		}
		b.Write(r.src[last:e.at])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(r.src[last:])
	// the import goes right behind the package clause, on its line
	txt := b.Bytes()
	at := r.off(r.file.Name.End())
	var res bytes.Buffer
	res.Write(txt[:at])
	fmt.Fprintf(&res, "; import zzvrt %q", module+"/zzvrt")
	res.Write(txt[at:])
	res.WriteString("\n")
	if len(r.keep) > 0 {
		var ks []string
		for k := range r.keep {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&res, "var _ = %s\n", k)
		}
	}
	return res.Bytes()
}
