// Command instr rewrites the sources of the code under test for simulation and
// writes a build overlay. /repo itself is not touched.
//
//	instr -repo /repo -rt /verif/sim/rt -out SCRATCH -level 3
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const mod = "github.com/grepsuzette/joeson"
const rtPath = mod + "/verifrt"

type edit struct {
	off, end int
	text     string
	seq      int
}

type instr struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	level int
	sites []string
	hot   []int // sites of statements which use what tasks share
	wr    []int // sites of statements which write in what parses may share
	src   []byte
	edits []edit
	file  *token.File
	used  map[string]bool
	n     int
	stats map[string]int
	fn    string
	rel   string
	reset []string // functions which give the package variables their initial values
	inits int
	done  map[ast.Expr]bool
	inner map[ast.Expr]bool // parts of a concatenation
}

func die(a ...any) { fmt.Fprintln(os.Stderr, a...); os.Exit(2) }

func main() {
	repo := flag.String("repo", "/repo", "")
	rt := flag.String("rt", "", "")
	out := flag.String("out", "", "")
	level := flag.Int("level", 3, "")
	pool := flag.String("pool", "", "only: add a sync.Pool which keeps nothing to the overlay of this directory")
	flag.Parse()
	if *pool != "" {
		poolOverlay(*pool)
		return
	}
	overlay := map[string]string{}
	addDir := func(src, dst string) {
		es, err := os.ReadDir(src)
		if err != nil {
			die(err)
		}
		for _, e := range es {
			if !e.IsDir() && strings.HasSuffix(e.Name(), ".go") {
				overlay[filepath.Join(dst, e.Name())] = filepath.Join(src, e.Name())
			}
		}
	}
	vrt := filepath.Join(*repo, "verifrt")
	addDir(*rt, vrt)
	addDir(filepath.Join(*rt, "simsync"), filepath.Join(vrt, "simsync"))

	// the packages: all of /repo's, except examples (but with lisp-repl)
	dirs := []string{}
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		b := filepath.Base(p)
		if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "verifrt" || b == "docs" || b == "contrib") {
			return filepath.SkipDir
		}
		if strings.HasPrefix(rel, "examples"+string(filepath.Separator)) && rel != filepath.Join("examples", "lisp-repl") {
			return filepath.SkipDir
		}
		dirs = append(dirs, p)
		return nil
	})
	exports := exportData(*repo)
	in := &instr{level: *level, sites: []string{"harness"}, stats: map[string]int{}}
	npk := 0
	for _, d := range dirs {
		rel, _ := filepath.Rel(*repo, d)
		ctx := build.Default
		ctx.CgoEnabled = false
		var names []string
		es, _ := os.ReadDir(d)
		for _, e := range es {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, _ := ctx.MatchFile(d, n); ok {
				names = append(names, n)
			}
		}
		if len(names) == 0 {
			continue
		}
		npk++
		in.fset = token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		for _, n := range names {
			b, err := os.ReadFile(filepath.Join(d, n))
			if err != nil {
				die(err)
			}
			f, err := parser.ParseFile(in.fset, filepath.Join(d, n), b, parser.ParseComments)
			if err != nil {
				die("parse:", err)
			}
			files = append(files, f)
			srcs = append(srcs, b)
		}
		in.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Error: func(error) {}, Importer: importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
			if e, ok := exports[path]; ok && e != "" {
				return os.Open(e)
			}
			return nil, fmt.Errorf("no export data for %s", path)
		})}
		in.pkg, _ = conf.Check(files[0].Name.Name, in.fset, files, in.info)
		in.reset, in.inits, in.done, in.inner = nil, 0, map[ast.Expr]bool{}, map[ast.Expr]bool{}
		order := map[ast.Expr]int{}
		for k, x := range in.info.InitOrder {
			order[x.Rhs] = k + 1
		}
		var resets []resetFn
		isLisp := rel == filepath.Join("examples", "lisp-repl")
		for i, f := range files {
			in.src, in.edits, in.used = srcs[i], nil, map[string]bool{}
			in.file = in.fset.File(f.Pos())
			in.rel = filepath.Join(rel, names[i])
			in.doFile(f)
			if in.level >= 2 {
				resets = append(resets, in.resets(f, order)...)
			}
			text := in.apply()
			dst := filepath.Join(d, names[i])
			if isLisp {
				text = bytes.Replace(text, []byte("package main"), []byte("package lisprepl"), 1)
				dst = filepath.Join(vrt, "lisprepl", names[i])
			}
			tmp := filepath.Join(*out, fmt.Sprintf("p%d_%s", npk, names[i]))
			if err := os.WriteFile(tmp, text, 0o644); err != nil {
				die(err)
			}
			overlay[dst] = tmp
		}
		if in.level >= 2 {
			sort.SliceStable(resets, func(a, b int) bool { return resets[a].order < resets[b].order })
			text, name := "", files[0].Name.Name
			dst := filepath.Join(d, "zz_verif_reset.go")
			if isLisp {
				name = "lisprepl"
				dst = filepath.Join(vrt, "lisprepl", "zz_verif_reset.go")
			}
			for _, r := range resets {
				text += "\t\t" + r.name + "()\n"
			}
			tmp := filepath.Join(*out, fmt.Sprintf("p%d_zz_verif_reset.go", npk))
			os.WriteFile(tmp, []byte("package "+name+"\n\nimport \""+rtPath+"\"\n\nfunc init() {\n\tverifrt.OnReset(func() {\n"+text+"\t})\n}\n"), 0o644)
			overlay[dst] = tmp
		}
		if isLisp {
			tmp := filepath.Join(*out, "lisp_entry.go")
			os.WriteFile(tmp, []byte("package lisprepl\n\nimport j \""+mod+"\"\n\n// Main runs the REPL.\nfunc Main() { main() }\n\n// Eval evaluates one expression on a new machine.\nfunc Eval(gm *j.Grammar, src string) string {\n\tast := gm.ParseString(src)\n\tif j.IsParseError(ast) {\n\t\treturn \"parse error\"\n\t}\n\treturn NewMachine().Eval(ast.(Expr)).String()\n}\n\n// Grammar compiles the grammar of the REPL.\nfunc Grammar() *j.Grammar { return grammar() }\n"), 0o644)
			overlay[filepath.Join(vrt, "lisprepl", "verif_entry.go")] = tmp
		}
	}
	sites := filepath.Join(*out, "sites.go")
	list := strings.NewReplacer("[", "[]uint32{", "]", "}", " ", ", ")
	os.WriteFile(sites, []byte(fmt.Sprintf("package verifrt\n\nfunc init() {\n\tNumSites = %d\n\tSharedSites = %s\n\tWriteSites = %s\n}\n", len(in.sites), list.Replace(fmt.Sprint(in.hot)), list.Replace(fmt.Sprint(in.wr)))), 0o644)
	overlay[filepath.Join(vrt, "zz_sites.go")] = sites
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die(err)
	}
	b, _ = json.Marshal(map[string]any{"sites": in.sites, "level": *level, "seams": in.stats})
	os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644)
}

// poolOverlay: the standard library (fmt, regexp) shares buffers between
// goroutines through sync.Pool, at random under the race detector; each such
// sharing is a synchronisation which hides races. Without it the happens-before
// relation is that of the code under test alone.
func poolOverlay(dir string) {
	file := filepath.Join(build.Default.GOROOT, "src", "sync", "pool.go")
	b, err := os.ReadFile(file)
	if err != nil {
		die(err)
	}
	put, get := "func (p *Pool) Put(x any) {\n", "func (p *Pool) Get() any {\n"
	if !bytes.Contains(b, []byte(put)) || !bytes.Contains(b, []byte(get)) {
		die("pool.go is not as expected")
	}
	b = bytes.Replace(b, []byte(put), []byte(put+"\tif race.Enabled {\n\t\treturn\n\t}\n"), 1)
	b = bytes.Replace(b, []byte(get), []byte(get+"\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n"), 1)
	tmp := filepath.Join(dir, "std_pool.go")
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		die(err)
	}
	ov := filepath.Join(dir, "overlay.json")
	var m struct{ Replace map[string]string }
	o, err := os.ReadFile(ov)
	if err != nil {
		die(err)
	}
	if err := json.Unmarshal(o, &m); err != nil {
		die(err)
	}
	m.Replace[file] = tmp
	o, _ = json.MarshalIndent(m, "", " ")
	os.WriteFile(ov, o, 0o644)
}

func exportData(repo string) map[string]string {
	m := map[string]string{}
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "./...")
	cmd.Dir = repo
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Run(); err != nil {
		fmt.Fprintln(os.Stderr, "instr: go list:", err, e.String())
		return m
	}
	for _, l := range strings.Split(o.String(), "\n") {
		if p := strings.SplitN(l, "\t", 2); len(p) == 2 {
			m[p[0]] = p[1]
		}
	}
	return m
}

func (in *instr) off(p token.Pos) int { return in.file.Offset(p) }
func (in *instr) text(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *instr) ins(p token.Pos, s string) { in.rep(p, p, s) }
func (in *instr) rep(from, to token.Pos, s string) {
	in.n++
	in.edits = append(in.edits, edit{in.off(from), in.off(to), s, in.n})
}

func (in *instr) site(n ast.Node) int {
	in.sites = append(in.sites, fmt.Sprintf("%s:%d %s", in.rel, in.fset.Position(n.Pos()).Line, in.fn))
	return len(in.sites) - 1
}

func (in *instr) apply() []byte {
	in.sortEdits()
	return in.applied(0, len(in.src))
}

func (in *instr) sortEdits() {
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// insertions before replacements at the same offset
		if (a.off == a.end) != (b.off == b.end) {
			return a.off == a.end
		}
		return a.seq < b.seq
	})
}

// applied gives a part of the source with the edits made in it
func (in *instr) applied(at, end int) []byte {
	var o bytes.Buffer
	for _, e := range in.edits {
		if e.off < at || e.off >= end && end < len(in.src) || e.end > end {
			continue // inside a replaced region
		}
		o.Write(in.src[at:e.off])
		o.WriteString(e.text)
		at = e.end
	}
	o.Write(in.src[at:end])
	return o.Bytes()
}

type resetFn struct {
	name  string
	order int
}

// resets adds functions to the file which give the package variables declared
// there the values they have when the process starts, and renames its init
// functions so that they can be called again: a simulated run starts as a new
// process would.
func (in *instr) resets(f *ast.File, order map[ast.Expr]int) []resetFn {
	var fns []resetFn
	var tail bytes.Buffer
	in.sortEdits()
	add := func(ord int, body string) {
		in.inits++
		name := fmt.Sprintf("verifReset%d_%d", len(in.sites), in.inits)
		fmt.Fprintf(&tail, "\n//go:norace\nfunc %s() { %s }\n", name, body)
		fns = append(fns, resetFn{name, ord})
	}
	var later []edit
	for _, d := range f.Decls {
		switch v := d.(type) {
		case *ast.GenDecl:
			if v.Tok != token.VAR {
				continue
			}
			for _, sp := range v.Specs {
				vs := sp.(*ast.ValueSpec)
				var l []string
				for _, n := range vs.Names {
					l = append(l, n.Name)
				}
				switch {
				case len(vs.Values) == 0:
					for _, n := range l {
						if n != "_" {
							in.stats["pkgvar"]++
							add(0, fmt.Sprintf("%s = *new(%s)", n, in.text(vs.Type)))
						}
					}
				case len(vs.Values) == len(l):
					for k, n := range l {
						if n != "_" {
							in.stats["pkgvar"]++
							x := vs.Values[k]
							add(1+order[x], fmt.Sprintf("%s = %s", n, in.applied(in.off(x.Pos()), in.off(x.End()))))
						}
					}
				default:
					x := vs.Values[0]
					in.stats["pkgvar"]++
					add(1+order[x], fmt.Sprintf("%s = %s", strings.Join(l, ", "), in.applied(in.off(x.Pos()), in.off(x.End()))))
				}
			}
		case *ast.FuncDecl:
			if v.Recv == nil && v.Name.Name == "init" && v.Body != nil {
				in.inits++
				name := fmt.Sprintf("verifInit%d_%d", len(in.sites), in.inits)
				later = append(later, edit{in.off(v.Name.Pos()), in.off(v.Name.End()), name, 0})
				fmt.Fprintf(&tail, "\nfunc init() { %s() }\n", name)
				fns = append(fns, resetFn{name, 1 << 30})
			}
		}
	}
	in.edits = append(in.edits, later...)
	in.n++
	in.edits = append(in.edits, edit{len(in.src), len(in.src), tail.String(), in.n})
	return fns
}

func (in *instr) pkgOf(x ast.Expr) string {
	if id, ok := x.(*ast.Ident); ok {
		if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
			return pn.Imported().Path()
		}
	}
	return ""
}

// an expression that designates memory other tasks could share
func (in *instr) shared(x ast.Expr) bool {
	switch v := x.(type) {
	case *ast.ParenExpr:
		return in.shared(v.X)
	case *ast.Ident:
		o := in.info.Uses[v]
		return o != nil && in.pkg != nil && o.Parent() == in.pkg.Scope()
	case *ast.SelectorExpr:
		return in.pure(v)
	case *ast.StarExpr:
		return in.pure(v.X)
	case *ast.IndexExpr:
		return in.pure(v)
	}
	return false
}

// no calls, no side effects
func (in *instr) pure(x ast.Expr) bool {
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch n.(type) {
		case nil, *ast.Ident, *ast.SelectorExpr, *ast.StarExpr, *ast.ParenExpr, *ast.BasicLit, *ast.IndexExpr:
		default:
			ok = false
		}
		return ok
	})
	return ok
}

func (in *instr) isMapIndex(x ast.Expr) bool {
	if ix, ok := x.(*ast.IndexExpr); ok {
		t := in.info.TypeOf(ix.X)
		if t == nil {
			return true // unknown: treat as not addressable
		}
		_, isMap := t.Underlying().(*types.Map)
		return isMap
	}
	return false
}

func (in *instr) doFile(f *ast.File) {
	in.ins(f.Name.End(), "; import verifrt \""+rtPath+"\"")
	for _, im := range f.Imports {
		if in.level >= 1 && im.Path.Value == `"sync"` {
			in.stats["sync"]++
			if im.Name == nil {
				in.rep(im.Path.Pos(), im.Path.End(), "sync \""+rtPath+"/simsync\"")
			} else {
				in.rep(im.Path.Pos(), im.Path.End(), "\""+rtPath+"/simsync\"")
			}
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			in.fn = fd.Name.Name
		} else {
			in.fn = "init"
		}
		ast.Inspect(d, in.visit)
	}
	tail := "\nvar _ = verifrt.Y\n"
	if in.used["fmt"] {
		tail += "\nvar _ = fmt.Sprint\n"
	}
	if in.used["os"] {
		tail += "\nvar _ = os.Getpid\n"
	}
	if in.used["time"] {
		tail += "\nvar _ time.Duration\n"
	}
	// not at f.End(): a comment may follow it on the same line
	in.n++
	in.edits = append(in.edits, edit{len(in.src), len(in.src), tail, in.n})
}

var seams = map[string]map[string]string{
	"fmt":  {"Print": "Print", "Printf": "Printf", "Println": "Println"},
	"os":   {"Stdout": "Stdout", "Stdin": "Stdin", "Getenv": "Getenv", "LookupEnv": "LookupEnv", "Exit": "Exit"},
	"time": {"Now": "Now", "Sleep": "Sleep"},
}

func (in *instr) visit(n ast.Node) bool {
	if in.level < 1 {
		return false
	}
	switch v := n.(type) {
	case *ast.SelectorExpr:
		p := in.pkgOf(v.X)
		if m, ok := seams[p]; ok {
			if to, ok := m[v.Sel.Name]; ok {
				in.stats[p+"."+v.Sel.Name]++
				in.used[p] = true
				in.rep(v.Pos(), v.End(), "verifrt."+to)
				return false
			}
		}
	case *ast.BlockStmt:
		in.list(v.List)
	case *ast.CaseClause:
		in.list(v.Body)
	case *ast.CommClause:
		in.list(v.Body)
	case *ast.GoStmt:
		if len(v.Call.Args) == 0 {
			in.stats["go"]++
			in.rep(v.Go, v.Call.Pos(), "verifrt.Go(func() { ")
			in.ins(v.End(), " })")
		} else {
			in.stats["go"]++
			in.rep(v.Go, v.Call.Pos(), "verifrt.Go(func() { ")
			in.ins(v.End(), " })")
		}
	case *ast.CallExpr:
		if in.level >= 3 {
			in.args(v)
		}
		in.search(v)
		in.meter(v)
	case *ast.BinaryExpr:
		if v.Op == token.ADD && in.isString(v) && !in.inner[v] {
			for x := v.X; ; {
				b, ok := x.(*ast.BinaryExpr)
				if !ok {
					break
				}
				in.inner[b] = true
				x = b.X
			}
			in.wrap("WS", v)
		}
	case *ast.AssignStmt:
		if v.Tok == token.ADD_ASSIGN && len(v.Lhs) == 1 && in.simple(v.Lhs[0]) && in.isString(v.Lhs[0]) {
			in.stats["meter"]++
			in.ins(v.Rhs[0].Pos(), "verifrt.WA("+in.text(v.Lhs[0])+", ")
			in.ins(v.Rhs[0].End(), ")")
		}
	case *ast.ForStmt:
		if len(v.Body.List) == 0 {
			in.ins(v.Body.Lbrace+1, fmt.Sprintf(" verifrt.Y(%d) ", in.site(v)))
		}
	case *ast.RangeStmt:
		if in.level >= 2 {
			in.mapRange(v)
		}
	}
	return true
}

func (in *instr) list(l []ast.Stmt) {
	for _, st := range l {
		switch st.(type) {
		case *ast.CaseClause, *ast.CommClause:
			continue // handled with their bodies
		case *ast.EmptyStmt:
			continue
		}
		if in.level >= 1 {
			id := in.site(st)
			if in.touches(st) {
				in.hot = append(in.hot, id)
			}
			if in.writes(st) {
				in.wr = append(in.wr, id)
			}
			in.ins(st.Pos(), fmt.Sprintf("verifrt.Y(%d); ", id))
		}
		if in.level >= 3 {
			in.rmw(st)
		}
	}
}

// touches tells that a statement (the statements inside of it aside) uses a
// package variable which is not a function, or something of packages sync and
// sync/atomic: where schedules matter most.
func (in *instr) touches(st ast.Stmt) bool {
	hit := false
	ast.Inspect(st, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			return ast.Node(v) == ast.Node(st)
		case *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			if o, ok := in.info.Uses[v].(*types.Var); ok && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
				hit = true
			}
		case *ast.SelectorExpr:
			if o := in.info.Uses[v.Sel]; o != nil && o.Pkg() != nil {
				switch o.Pkg().Path() {
				case "sync", "sync/atomic":
					hit = true
				}
			}
		}
		return true
	})
	return hit
}

// writes tells that a statement writes in a part of a grammar, which several
// parses may use.
func (in *instr) writes(st ast.Stmt) bool {
	var to []ast.Expr
	switch v := st.(type) {
	case *ast.AssignStmt:
		if v.Tok != token.DEFINE {
			to = v.Lhs
		}
	case *ast.IncDecStmt:
		to = []ast.Expr{v.X}
	case *ast.ExprStmt: // delete, clear, copy
		if c, ok := v.X.(*ast.CallExpr); ok && len(c.Args) > 0 {
			if id, ok := c.Fun.(*ast.Ident); ok {
				if _, ok := in.info.Uses[id].(*types.Builtin); ok {
					to = c.Args[:1]
				}
			}
		}
	}
	for _, e := range to {
		for e != nil {
			switch v := e.(type) {
			case *ast.IndexExpr:
				e = v.X
				continue
			case *ast.StarExpr:
				e = v.X
				continue
			case *ast.ParenExpr:
				e = v.X
				continue
			case *ast.SelectorExpr:
				if sel := in.info.Selections[v]; sel != nil && sel.Kind() == types.FieldVal && shared(sel.Recv()) {
					return true
				}
				e = v.X
				continue
			}
			break
		}
	}
	return false
}

// shared: the type is rule or Grammar, or has one inside of it, or is Lazy or
// an options type
func shared(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		switch n.Obj().Name() {
		case "rule", "Grammar", "TraceOptions", "parseOptions", "Lazy":
			return true
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() {
			if p, ok := f.Type().(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "rule" {
					return true
				}
			}
		}
	}
	return false
}

// search lets the work of a regular expression on a string be measured.
func (in *instr) search(c *ast.CallExpr) {
	se, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || len(c.Args) == 0 || !in.simple(se.X) {
		return
	}
	sel := in.info.Selections[se]
	if sel == nil || sel.Kind() != types.MethodVal || len(sel.Index()) != 1 {
		return
	}
	switch se.Sel.Name {
	case "MatchString", "FindString", "FindStringIndex", "FindStringSubmatch", "FindStringSubmatchIndex":
	default:
		return
	}
	x := in.text(se.X)
	switch sel.Recv().String() {
	case "regexp.Regexp":
		x = "&" + x
	case "*regexp.Regexp":
	default:
		return
	}
	in.stats["search"]++
	in.ins(c.Args[0].Pos(), "verifrt.ReText("+x+", ")
	in.ins(c.Args[0].End(), ")")
}

// meter lets the work of the builtin functions, the conversions and the functions
// of the standard library which read a whole text or slice be measured.
func (in *instr) meter(c *ast.CallExpr) {
	tv, ok := in.info.Types[c.Fun]
	if !ok {
		return
	}
	switch {
	case tv.IsType():
		if len(c.Args) != 1 {
			return
		}
		_, toSlice := tv.Type.Underlying().(*types.Slice)
		if in.isString(c.Args[0]) && toSlice {
			in.wrap("WS", c.Args[0])
		} else if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && in.isSlice(c.Args[0]) {
			in.wrap("WL", c.Args[0])
		}
	case tv.IsBuiltin():
		id, ok := c.Fun.(*ast.Ident)
		if !ok || len(c.Args) < 2 {
			return
		}
		last := c.Args[len(c.Args)-1]
		switch {
		case id.Name == "append" && c.Ellipsis.IsValid(), id.Name == "copy":
			if in.isString(last) {
				in.wrap("WS", last)
			} else if in.isSlice(last) {
				in.wrap("WL", last)
			}
		case id.Name == "make":
			if t, ok := in.info.Types[last]; ok && t.Value == nil {
				in.wrap("WN", last)
			}
		}
	default:
		se, ok := c.Fun.(*ast.SelectorExpr)
		if !ok || len(c.Args) == 0 {
			return
		}
		switch in.pkgOf(se.X) {
		case "strings", "bytes", "unicode/utf8":
		default:
			return
		}
		switch se.Sel.Name {
		case "Count", "Split", "SplitAfter", "Fields", "Replace", "ReplaceAll", "ToLower", "ToUpper", "Title", "ToValidUTF8",
			"Clone", "RuneCountInString", "RuneCount", "ValidString", "Valid", "Runes":
			if in.isString(c.Args[0]) {
				in.wrap("WS", c.Args[0])
			} else if in.isSlice(c.Args[0]) {
				in.wrap("WL", c.Args[0])
			}
		case "Index", "Contains", "Cut", "SplitN":
			if len(c.Args) > 1 && in.isString(c.Args[0]) && in.isString(c.Args[1]) && in.pure(c.Args[1]) {
				in.stats["meter"]++
				in.ins(c.Args[0].Pos(), "verifrt.WI("+in.text(c.Args[1])+", ")
				in.ins(c.Args[0].End(), ")")
			}
		case "LastIndex":
			if len(c.Args) > 1 && in.isString(c.Args[0]) && in.isString(c.Args[1]) && in.pure(c.Args[1]) {
				in.stats["meter"]++
				in.ins(c.Args[0].Pos(), "verifrt.WJ("+in.text(c.Args[1])+", ")
				in.ins(c.Args[0].End(), ")")
			}
		}
	}
}

func (in *instr) wrap(f string, x ast.Expr) {
	if tv, ok := in.info.Types[x]; !ok || tv.Value != nil || tv.IsNil() {
		return
	}
	in.stats["meter"]++
	in.ins(x.Pos(), "verifrt."+f+"(")
	in.ins(x.End(), ")")
}

func (in *instr) isString(x ast.Expr) bool {
	tv, ok := in.info.Types[x]
	if !ok || !tv.IsValue() {
		return false
	}
	b, ok := tv.Type.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *instr) isSlice(x ast.Expr) bool {
	tv, ok := in.info.Types[x]
	if !ok || !tv.IsValue() {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Slice)
	return ok
}

// simple: x can be evaluated twice
func (in *instr) simple(x ast.Expr) bool {
	switch v := x.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return in.simple(v.X)
	}
	return false
}

// args adds scheduling points between the evaluation of the calls in the
// arguments of a method which is not instrumented, and the call of this method:
// files.AddFile("", files.Base(), n), counter.Store(counter.Load() + 1).
func (in *instr) args(c *ast.CallExpr) {
	se, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return
	}
	sel := in.info.Selections[se]
	if sel == nil || sel.Kind() != types.MethodVal || sel.Obj().Pkg() == nil {
		return
	}
	if p := sel.Obj().Pkg().Path(); strings.HasPrefix(p, mod) || p == "main" || p == "strings" || p == "fmt" || p == "bytes" || sel.Obj().Pkg() == in.pkg {
		return
	}
	for _, a := range c.Args {
		ast.Inspect(a, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				if in.done[v] {
					return false
				}
				tv, ok := in.info.Types[v.Fun]
				if !ok || tv.IsType() || tv.IsBuiltin() {
					return true
				}
				r, ok := in.info.Types[v]
				if !ok || !r.IsValue() || r.Value != nil {
					return true
				}
				if _, tuple := r.Type.(*types.Tuple); tuple {
					return true
				}
				in.done[v] = true
				in.stats["argcall"]++
				in.ins(v.Pos(), fmt.Sprintf("verifrt.V(%d, ", in.site(v)))
				in.ins(v.End(), ")")
				return false
			}
			return true
		})
	}
}

// split read-modify-write statements on memory that can be shared
func (in *instr) rmw(st ast.Stmt) {
	switch v := st.(type) {
	case *ast.IncDecStmt:
		if !in.shared(v.X) {
			return
		}
		op := "+"
		if v.Tok == token.DEC {
			op = "-"
		}
		x := in.text(v.X)
		in.stats["rmw"]++
		if in.isMapIndex(v.X) {
			in.rep(v.Pos(), v.End(), fmt.Sprintf("{ verifT := %s; verifrt.Y(%d); %s = verifT %s 1 }", x, in.site(st), x, op))
		} else {
			in.rep(v.Pos(), v.End(), fmt.Sprintf("{ verifP := &(%s); verifT := *verifP; verifrt.Y(%d); *verifP = verifT %s 1 }", x, in.site(st), op))
		}
	case *ast.AssignStmt:
		if len(v.Lhs) != 1 || len(v.Rhs) != 1 || v.Tok == token.DEFINE || !in.shared(v.Lhs[0]) {
			return
		}
		x := in.text(v.Lhs[0])
		if v.Tok != token.ASSIGN {
			if !in.pure(v.Rhs[0]) && in.info.Types[v.Rhs[0]].Value == nil {
				return
			}
			op := strings.TrimSuffix(v.Tok.String(), "=")
			in.stats["rmw"]++
			if in.isMapIndex(v.Lhs[0]) {
				in.rep(v.Pos(), v.End(), fmt.Sprintf("{ verifT := %s; verifrt.Y(%d); %s = verifT %s (%s) }", x, in.site(st), x, op, in.text(v.Rhs[0])))
			} else {
				in.rep(v.Pos(), v.End(), fmt.Sprintf("{ verifP := &(%s); verifT := *verifP; verifrt.Y(%d); *verifP = verifT %s (%s) }", x, in.site(st), op, in.text(v.Rhs[0])))
			}
			return
		}
		// x = append(x, ...)
		if c, ok := v.Rhs[0].(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && len(c.Args) > 0 && in.shared(c.Args[0]) {
				for _, a := range c.Args[1:] {
					bad := false
					ast.Inspect(a, func(n ast.Node) bool {
						if _, isF := n.(*ast.FuncLit); isF {
							bad = true
						}
						if se, isS := n.(*ast.SelectorExpr); isS && in.pkgOf(se.X) != "" {
							if _, seam := seams[in.pkgOf(se.X)]; seam {
								bad = true
							}
						}
						return true
					})
					if bad {
						return
					}
				}
				in.stats["rmw"]++
				a0 := in.text(c.Args[0])
				rest := string(in.src[in.off(c.Args[0].End()):in.off(c.End())])
				in.rep(v.Pos(), v.End(), fmt.Sprintf("{ verifT := %s; verifrt.Y(%d); %s = append(verifT%s }", a0, in.site(st), x, rest))
			}
		}
	}
}

func (in *instr) mapRange(v *ast.RangeStmt) {
	t := in.info.TypeOf(v.X)
	if t == nil {
		return
	}
	if _, isMap := t.Underlying().(*types.Map); !isMap {
		return
	}
	if !in.pure(v.X) {
		return
	}
	in.stats["maprange"]++
	m := in.text(v.X)
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	as := ""
	op := v.Tok.String()
	var l, r []string
	if v.Key != nil && !blank(v.Key) {
		l, r = append(l, in.text(v.Key)), append(r, "verifE.K")
	}
	if v.Value != nil && !blank(v.Value) {
		l, r = append(l, in.text(v.Value)), append(r, "verifE.V")
	}
	if len(l) > 0 {
		as = strings.Join(l, ", ") + " " + op + " " + strings.Join(r, ", ") + "; "
	}
	in.rep(v.For, v.Body.Lbrace, "for _, verifE := range verifrt.Entries("+m+") ")
	in.ins(v.Body.Lbrace+1, " if !verifrt.Has("+m+", verifE.K) { continue }; "+as)
}
