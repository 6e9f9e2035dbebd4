package main

// The instrumenter: copies the packages of the code under test (and the trie
// library they use) into a work directory, putting a yield point before every
// statement and replacing the sources of nondeterminism by seams. It works by
// inserting text at positions taken from the syntax tree, so the code that
// runs is the code in /repo, statement by statement.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	gsePath   = "github.com/go-ego/gse"
	cedarPath = "github.com/vcaesar/cedar"
	srvPath   = gsePath + "/tools/server"
)

type site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
}

type pkgSrc struct {
	path  string
	dir   string // source directory
	out   string // output directory
	files []string
	ast   []*ast.File
	src   [][]byte
	tpkg  *types.Package
	info  *types.Info
	deps  []string
}

type instr struct {
	fset  *token.FileSet
	pkgs  map[string]*pkgSrc
	order []*pkgSrc
	sites []site
	stats map[string]int
	srcI  types.Importer
	fakes map[string]*types.Package
	tmp   int
	level int // 0 everything, 1 no channel rewriting, 2 no goroutine or lock seams either
}

func newInstr() *instr {
	in := &instr{fset: token.NewFileSet(), pkgs: map[string]*pkgSrc{}, stats: map[string]int{}, fakes: map[string]*types.Package{}}
	in.sites = append(in.sites, site{0, "simulated device", ""})
	return in
}

// Import implements types.Importer: local packages from their syntax trees,
// the standard library from source, without cgo.
func (in *instr) Import(path string) (*types.Package, error) {
	if p, ok := in.pkgs[path]; ok && p.tpkg != nil {
		return p.tpkg, nil
	}
	if p, ok := in.fakes[path]; ok {
		return p, nil
	}
	p, err := in.srcI.Import(path)
	if err != nil || p == nil {
		p = types.NewPackage(path, path[strings.LastIndexByte(path, '/')+1:])
		p.MarkComplete()
		in.fakes[path] = p
		return p, nil
	}
	return p, nil
}

func (in *instr) load(path, dir, out string, ctx *build.Context) error {
	if _, ok := in.pkgs[path]; ok {
		return nil
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	p := &pkgSrc{path: path, dir: dir, out: out}
	in.pkgs[path] = p
	names := map[string]int{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(in.fset, filepath.Join(dir, n), b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		names[f.Name.Name]++
		p.files = append(p.files, n)
		p.ast = append(p.ast, f)
		p.src = append(p.src, b)
		for _, im := range f.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			p.deps = append(p.deps, ip)
		}
	}
	if len(p.files) == 0 {
		return fmt.Errorf("no Go files in %s", dir)
	}
	return nil
}

// closure loads the package and everything in the module it imports.
func (in *instr) closure(path, repo, work string, ctx *build.Context) error {
	if _, ok := in.pkgs[path]; ok {
		return nil
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(path, gsePath), "/")
	if err := in.load(path, filepath.Join(repo, rel), filepath.Join(work, "gse", rel), ctx); err != nil {
		return err
	}
	p := in.pkgs[path]
	for _, d := range p.deps {
		if d == gsePath || strings.HasPrefix(d, gsePath+"/") {
			if err := in.closure(d, repo, work, ctx); err != nil {
				return err
			}
		}
	}
	in.order = append(in.order, p)
	return nil
}

func (in *instr) check() {
	os.Setenv("CGO_ENABLED", "0")
	build.Default.CgoEnabled = false
	in.srcI = importer.ForCompiler(in.fset, "source", nil)
	for _, p := range in.order {
		p.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Uses:  map[*ast.Ident]types.Object{},
			Defs:  map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: in, Error: func(err error) { in.stats["typeerrors"]++ }, FakeImportC: true}
		p.tpkg, _ = conf.Check(p.path, in.fset, p.ast, p.info)
	}
}

type edit struct {
	at, end int // replace [at,end)
	text    string
	seq     int
}

type fileEd struct {
	in    *instr
	p     *pkgSrc
	f     *ast.File
	src   []byte
	base  int
	edits []edit
	fn    string
	need  map[string]string // shim alias -> import path
	keep  map[string]string // original qualifier -> an exported name to keep it used
	skip  map[ast.Node]bool

	labels map[*ast.SelectStmt]*ast.LabeledStmt
}

func (e *fileEd) off(p token.Pos) int { return e.in.fset.Position(p).Offset }

func (e *fileEd) ins(p token.Pos, text string) { e.rep(p, p, text) }

func (e *fileEd) rep(a, b token.Pos, text string) {
	e.edits = append(e.edits, edit{e.off(a), e.off(b), text, len(e.edits)})
}

func (e *fileEd) site(p token.Pos) string {
	id := len(e.in.sites)
	pos := e.in.fset.Position(p)
	name := e.p.path
	name = strings.TrimPrefix(strings.TrimPrefix(name, gsePath), "/")
	if e.p.path == cedarPath {
		name = "cedar"
	}
	e.in.sites = append(e.in.sites, site{id, filepath.Join(name, filepath.Base(pos.Filename)) + ":" + strconv.Itoa(pos.Line), e.fn})
	return fmt.Sprintf("vsimrt.Y(%d);", id)
}

func (e *fileEd) isPkg(id *ast.Ident, path string) bool {
	if o, ok := e.p.info.Uses[id]; ok {
		if pn, ok := o.(*types.PkgName); ok {
			return pn.Imported().Path() == path
		}
		return false
	}
	return false
}

// seams: package -> selector -> shim alias
var seams = map[string]struct {
	alias, path string
	names       map[string]string
}{
	"os": {"vsimos", "verif.local/rt/vos", map[string]string{
		"Open": "Open", "OpenFile": "OpenFile", "ReadFile": "ReadFile", "Stat": "Stat", "Lstat": "Stat", "File": "File", "Exit": "Exit"}},
	"io/ioutil": {"vsimos", "verif.local/rt/vos", map[string]string{"ReadFile": "ReadFile"}},
	"net/http": {"vsimhttp", "verif.local/rt/vhttp", map[string]string{
		"HandleFunc": "HandleFunc", "Handle": "Handle", "ListenAndServe": "ListenAndServe", "Serve": "Serve", "Server": "Server"}},
	"math/rand": {"vsimrand", "verif.local/rt/vrand", map[string]string{
		"Seed": "Seed", "Int": "Int", "Intn": "Intn", "Int31": "Int31", "Int31n": "Int31n", "Int63": "Int63", "Int63n": "Int63n",
		"Uint32": "Uint32", "Uint64": "Uint64", "Float32": "Float32", "Float64": "Float64", "Perm": "Perm", "Shuffle": "Shuffle", "Read": "Read",
		"NormFloat64": "NormFloat64", "ExpFloat64": "ExpFloat64"}},
	"math/rand/v2": {"vsimrand", "verif.local/rt/vrand", map[string]string{
		"Int": "Int", "IntN": "Intn", "Int64": "Int63", "Uint32": "Uint32", "Uint64": "Uint64", "Float32": "Float32", "Float64": "Float64",
		"Perm": "Perm", "Shuffle": "Shuffle"}},
	"time": {"vsimtime", "verif.local/rt/vtime", map[string]string{"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep"}},
	"sync": {"vsimsync", "verif.local/rt/vsync", map[string]string{
		"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond",
		"Pool": "Pool", "Map": "Map", "Locker": "Locker", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"}},
}

// keepUse names something exported that can keep an import in use.
var keepUse = map[string]string{"os": "var _ = %s.Getpid", "io/ioutil": "var _ = %s.Discard", "net/http": "var _ = %s.StatusOK",
	"math/rand": "var _ = %s.NewSource", "math/rand/v2": "var _ = %s.NewPCG", "time": "var _ = %s.Second", "sync": "var _ %s.Locker"}

func (e *fileEd) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		e.ins(s.Pos(), e.site(s.Pos()))
	}
}

func (e *fileEd) walk() {
	for _, d := range e.f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			e.fn = d.Name.Name
			if d.Recv != nil && len(d.Recv.List) > 0 {
				e.fn = types.ExprString(d.Recv.List[0].Type) + "." + e.fn
			}
			if d.Body != nil {
				e.node(d)
			}
		default:
			e.fn = "package"
			e.node(d)
		}
	}
}

func (e *fileEd) node(root ast.Node) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			e.stmts(n.List)
		case *ast.CaseClause:
			e.stmts(n.Body)
		case *ast.CommClause:
			if !e.skip[n] {
				e.stmts(n.Body)
			}
		case *ast.ForStmt:
			e.ins(n.Body.Lbrace+1, e.site(n.Body.Lbrace))
		case *ast.RangeStmt:
			e.rangeStmt(n)
		case *ast.GoStmt:
			if e.in.level < 2 {
				e.goStmt(n)
			}
		case *ast.SendStmt:
			if e.skip[n] || e.in.level > 0 {
				return true
			}
			e.ins(n.Pos(), "vsimrt.Send(")
			e.rep(n.Arrow, n.Arrow+2, ",")
			e.ins(n.End(), ")")
			e.in.stats["send"]++
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !e.skip[n] && e.in.level == 0 {
				e.rep(n.OpPos, n.OpPos+2, "vsimrt.Recv(")
				e.ins(n.End(), ")")
				e.in.stats["recv"]++
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				e.recv2(n.Rhs[0])
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				e.recv2(n.Values[0])
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 && e.in.level == 0 {
				if _, isB := e.p.info.Uses[id].(*types.Builtin); isB {
					e.rep(id.Pos(), id.End(), "vsimrt.Close")
				}
			}
		case *ast.LabeledStmt:
			if s, ok := n.Stmt.(*ast.SelectStmt); ok {
				e.labels[s] = n
			}
		case *ast.SelectStmt:
			if e.in.level == 0 {
				e.selectStmt(n)
			}
		case *ast.SelectorExpr:
			e.selector(n)
		}
		return true
	})
}

func (e *fileEd) recv2(x ast.Expr) {
	if u, ok := ast.Unparen(x).(*ast.UnaryExpr); ok && u.Op == token.ARROW && !e.skip[u] && e.in.level == 0 {
		e.skip[u] = true
		e.rep(u.OpPos, u.OpPos+2, "vsimrt.Recv2(")
		e.ins(u.End(), ")")
		e.in.stats["recv"]++
	}
}

func (e *fileEd) selector(n *ast.SelectorExpr) {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	o, ok := e.p.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	path := o.Imported().Path()
	sm, ok := seams[path]
	if !ok || (path == "sync" && e.in.level > 1) {
		return
	}
	to, ok := sm.names[n.Sel.Name]
	if !ok {
		return
	}
	e.rep(n.Pos(), n.End(), sm.alias+"."+to)
	e.need[sm.alias] = sm.path
	e.keep[id.Name] = fmt.Sprintf(keepUse[path], id.Name)
	e.in.stats["seam:"+path+"."+n.Sel.Name]++
}

func (e *fileEd) rangeStmt(n *ast.RangeStmt) {
	t := e.p.info.Types[n.X].Type
	if t == nil {
		e.in.stats["range-untyped"]++
		e.ins(n.Body.Lbrace+1, e.site(n.Body.Lbrace))
		return
	}
	e.in.tmp++
	k := e.in.tmp
	bodyStart := ""
	switch t.Underlying().(type) {
	case *types.Map:
		if n.Key == nil && n.Value == nil {
			break
		}
		e.in.stats["maprange"]++
		name := func(x ast.Expr) string {
			if x == nil {
				return "_"
			}
			return string(e.src[e.off(x.Pos()):e.off(x.End())])
		}
		key, val := name(n.Key), name(n.Value)
		e.rep(n.For, n.X.Pos(), fmt.Sprintf("for _, vsimE%d := range vsimrt.MapEnts(", k))
		e.ins(n.X.End(), ")")
		bodyStart = fmt.Sprintf("vsimK%d, vsimV%d, vsimOK%d := vsimE%d.Get(); if !vsimOK%d { continue }; _, _ = vsimK%d, vsimV%d;", k, k, k, k, k, k, k)
		if key != "_" {
			bodyStart += fmt.Sprintf("%s %s vsimK%d;", key, n.Tok, k)
			if n.Tok == token.DEFINE {
				bodyStart += "_ = " + key + ";"
			}
		}
		if val != "_" {
			bodyStart += fmt.Sprintf("%s %s vsimV%d;", val, n.Tok, k)
			if n.Tok == token.DEFINE {
				bodyStart += "_ = " + val + ";"
			}
		}
		// an assignment target must not be instrumented twice
		if n.Key != nil {
			e.skipAll(n.Key)
		}
		if n.Value != nil {
			e.skipAll(n.Value)
		}
	case *types.Chan:
		if e.in.level > 0 {
			break
		}
		e.in.stats["chanrange"]++
		key := ""
		if n.Key != nil {
			key = string(e.src[e.off(n.Key.Pos()):e.off(n.Key.End())])
		}
		e.rep(n.For, n.X.Pos(), fmt.Sprintf("for vsimC%d := (", k))
		e.ins(n.X.End(), "); ;")
		bodyStart = fmt.Sprintf("vsimV%d, vsimOK%d := vsimrt.Recv2(vsimC%d); if !vsimOK%d { break }; _ = vsimV%d;", k, k, k, k, k)
		if key != "" && key != "_" {
			bodyStart += fmt.Sprintf("%s %s vsimV%d;", key, n.Tok, k)
			if n.Tok == token.DEFINE {
				bodyStart += "_ = " + key + ";"
			}
		}
	}
	e.ins(n.Body.Lbrace+1, bodyStart+e.site(n.Body.Lbrace))
}

func (e *fileEd) skipAll(n ast.Node) {
	ast.Inspect(n, func(m ast.Node) bool {
		if m != nil {
			e.skip[m] = true
		}
		return true
	})
}

func (e *fileEd) goStmt(n *ast.GoStmt) {
	e.in.stats["go"]++
	c := n.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		e.rep(n.Go, c.Fun.Pos(), "vsimrt.Go(")
		e.rep(c.Lparen, c.Rparen+1, ")")
		return
	}
	var sig *types.Signature
	if tv, ok := e.p.info.Types[c.Fun]; ok && tv.Type != nil {
		sig, _ = tv.Type.Underlying().(*types.Signature)
	}
	if sig != nil && !sig.Variadic() && sig.Results().Len() == 0 && len(c.Args) == sig.Params().Len() && len(c.Args) <= 4 {
		if len(c.Args) == 0 {
			e.rep(n.Go, c.Fun.Pos(), "vsimrt.Go(")
			e.rep(c.Lparen, c.Rparen+1, ")")
			return
		}
		e.rep(n.Go, c.Fun.Pos(), fmt.Sprintf("vsimrt.Go%d(", len(c.Args)))
		e.rep(c.Lparen, c.Lparen+1, ", ")
		return
	}
	e.rep(n.Go, c.Fun.Pos(), "vsimrt.Go(func() { ")
	e.ins(n.End(), " })")
}

func (e *fileEd) text(a, b token.Pos) string { return string(e.src[e.off(a):e.off(b)]) }

// selectStmt turns a select into a switch over the case the simulator chose.
func (e *fileEd) selectStmt(n *ast.SelectStmt) {
	e.in.stats["select"]++
	e.in.tmp++
	k := e.in.tmp
	def := "false"
	setup := ""
	for i, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		e.skip[cc] = true
		pre := ""
		switch s := cc.Comm.(type) {
		case nil:
			def = "true"
			e.rep(cc.Case, cc.Colon+1, "default:")
		case *ast.SendStmt:
			e.skipAll(s)
			setup += fmt.Sprintf("vsimrt.SelSend(vsimS%d, %s, %s);", k, e.text(s.Chan.Pos(), s.Chan.End()), e.text(s.Value.Pos(), s.Value.End()))
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			e.skipAll(s)
			setup += fmt.Sprintf("vsimrt.SelRecv(vsimS%d, %s);", k, e.text(u.X.Pos(), u.X.End()))
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			e.skipAll(s)
			setup += fmt.Sprintf("vsimR%d_%d := vsimrt.SelRecv(vsimS%d, %s);", k, i, k, e.text(u.X.Pos(), u.X.End()))
			l0 := e.text(s.Lhs[0].Pos(), s.Lhs[0].End())
			l1 := "_"
			if len(s.Lhs) > 1 {
				l1 = e.text(s.Lhs[1].Pos(), s.Lhs[1].End())
			}
			tok := s.Tok.String()
			if l0 == "_" && l1 == "_" {
				tok = "="
			}
			pre = fmt.Sprintf("%s, %s %s vsimR%d_%d.Get();", l0, l1, tok, k, i)
		}
		idx := 0
		for _, d := range n.Body.List[:i] {
			if d.(*ast.CommClause).Comm != nil {
				idx++
			}
		}
		if cc.Comm != nil {
			e.rep(cc.Case, cc.Colon+1, fmt.Sprintf("case %d: %s", idx, pre))
		}
		e.stmts(cc.Body)
	}
	label := ""
	from := n.Select
	if l := e.labels[n]; l != nil {
		label = l.Label.Name + ": "
		e.rep(l.Pos(), n.Select, "")
	}
	e.rep(from, n.Body.Lbrace, fmt.Sprintf("{ vsimS%d := vsimrt.NewSel(%s); %s %sswitch vsimS%d.Choose() ", k, def, setup, label, k))
	if def == "false" {
		e.ins(n.Body.Rbrace, "default: panic(\"vsim: select\") ")
	}
	e.ins(n.End(), "}")
}

func (e *fileEd) apply() []byte {
	sort.SliceStable(e.edits, func(i, j int) bool {
		a, b := e.edits[i], e.edits[j]
		if a.at != b.at {
			return a.at < b.at
		}
		// pure insertions come before a replacement that starts here
		ia, ib := a.end == a.at, b.end == b.at
		if ia != ib {
			return ia
		}
		return a.seq < b.seq
	})
	var out []byte
	last := 0
	for _, d := range e.edits {
		if d.at < last {
			continue // inside replaced text
		}
		out = append(out, e.src[last:d.at]...)
		out = append(out, d.text...)
		last = d.end
	}
	return append(out, e.src[last:]...)
}

func (in *instr) rewrite(p *pkgSrc) error {
	if err := os.MkdirAll(p.out, 0o755); err != nil {
		return err
	}
	for i, f := range p.ast {
		e := &fileEd{in: in, p: p, f: f, src: p.src[i], need: map[string]string{}, keep: map[string]string{}, skip: map[ast.Node]bool{}, labels: map[*ast.SelectStmt]*ast.LabeledStmt{}}
		e.walk()
		if p.path == srvPath {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
					e.rep(fd.Name.Pos(), fd.Name.End(), "Main")
				}
			}
			e.rep(f.Name.Pos(), f.Name.End(), "server")
		}
		head := "; import vsimrt \"verif.local/rt\""
		var al []string
		for a := range e.need {
			al = append(al, a)
		}
		sort.Strings(al)
		for _, a := range al {
			head += "; import " + a + " \"" + e.need[a] + "\""
		}
		e.ins(f.Name.End(), head)
		tail := ""
		if in.reset(p) {
			tail = e.resets()
		}
		out := e.apply()
		out = append(out, "\nvar _ = vsimrt.Y\n"...)
		out = append(out, tail...)
		al = al[:0]
		for a := range e.keep {
			al = append(al, a)
		}
		sort.Strings(al)
		for _, a := range al {
			out = append(out, (e.keep[a] + "\n")...)
		}
		if err := os.WriteFile(filepath.Join(p.out, p.files[i]), out, 0o644); err != nil {
			return err
		}
	}
	if in.reset(p) {
		name := p.ast[0].Name.Name
		if p.path == srvPath {
			name = "server"
		}
		var order []string
		for _, in := range p.info.InitOrder {
			if len(in.Lhs) > 0 {
				order = append(order, in.Lhs[0].Name())
			}
		}
		b := "package " + name + "\n\nimport vsimrt \"verif.local/rt\"\n\n" +
			"var vsimZero, vsimInitFns []func()\nvar vsimInit = map[string]func(){}\n\n" +
			fmt.Sprintf("var vsimOrder = %#v\n\n", append([]string{}, order...)) +
			"func init() { vsimrt.OnReset(" + strconv.Quote(p.path) + ", VsimReset) }\n\n" +
			"// VsimReset gives the package's variables their initial values again.\n" +
			"func VsimReset() {\n\tfor _, f := range vsimZero {\n\t\tf()\n\t}\n\tfor _, n := range vsimOrder {\n\t\tif f := vsimInit[n]; f != nil {\n\t\t\tf()\n\t\t}\n\t}\n" +
			"\tfor _, f := range vsimInitFns {\n\t\tf()\n\t}\n}\n"
		return os.WriteFile(filepath.Join(p.out, "zz_vsim_reset.go"), []byte(b), 0o644)
	}
	return nil
}

// reset says whether the package's variables are given their initial values
// before each simulated run.
func (in *instr) reset(p *pkgSrc) bool { return p.path != cedarPath }

// big: tables and compiled patterns, which nothing assigns to, are left alone.
func big(e *fileEd, vals []ast.Expr) bool {
	for _, v := range vals {
		if e.off(v.End())-e.off(v.Pos()) > 20000 {
			return true
		}
		if c, ok := v.(*ast.CallExpr); ok {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "MustCompile" {
				return true
			}
		}
	}
	return false
}

// resets generates the code that gives the file's package variables their
// initial values again, so that each simulated run starts from a fresh process
// state, and makes init functions callable.
func (e *fileEd) resets() string {
	var b strings.Builder
	b.WriteString("\nfunc init() {\n")
	var fns []string
	for _, d := range e.f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name != "_" {
							fmt.Fprintf(&b, "\tvsimZero = append(vsimZero, func() { %s = *new(%s) })\n", n.Name, e.seamText(vs.Type))
						}
					}
					continue
				}
				if big(e, vs.Values) {
					e.in.stats["reset-skipped"]++
					continue
				}
				if len(vs.Values) == len(vs.Names) {
					for i, n := range vs.Names {
						if n.Name != "_" {
							fmt.Fprintf(&b, "\tvsimInit[%q] = func() { %s = %s }\n", n.Name, n.Name, e.seamText(vs.Values[i]))
						}
					}
					continue
				}
				var names []string
				for _, n := range vs.Names {
					names = append(names, n.Name)
				}
				fmt.Fprintf(&b, "\tvsimInit[%q] = func() { %s = %s }\n", names[0], strings.Join(names, ", "), e.seamText(vs.Values[0]))
			}
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				e.in.tmp++
				n := fmt.Sprintf("vsimInitFn%d", e.in.tmp)
				e.rep(d.Name.Pos(), d.Name.End(), n)
				fns = append(fns, n)
			}
		}
	}
	for _, n := range fns {
		fmt.Fprintf(&b, "\tvsimInitFns = append(vsimInitFns, %s)\n\t%s()\n", n, n)
	}
	b.WriteString("}\n")
	return b.String()
}

// seamText is the source of n with the edits made inside it.
func (e *fileEd) seamText(n ast.Node) string {
	lo, hi := e.off(n.Pos()), e.off(n.End())
	sub := &fileEd{src: e.src}
	for _, d := range e.edits {
		if d.at >= lo && d.end <= hi && (d.at > lo || d.end > d.at) {
			sub.edits = append(sub.edits, d)
		}
	}
	sub.edits = append(sub.edits, edit{0, lo, "", -2})
	out := sub.apply()
	return string(out[:len(out)-(len(e.src)-hi)])
}

func (in *instr) writeSites(work string) error {
	b, err := json.Marshal(in.sites)
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(work, "sites.json"), b, 0o644)
}
