package main

// Source generator: turns the packages of /repo's working tree into the
// variants the checks need, as a `go build -overlay` (nothing is written in
// /repo). Edits are textual insertions at AST positions, so directives and
// comments survive.
//
//   tape   imports of the random sources are redirected to harness-controlled
//          ones; package-level state can be reset between executions
//   sched  tape + a scheduling point before every statement; go statements,
//          channel operations, package sync and compound assignments go
//          through the cooperative scheduler

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const (
	modPath  = "github.com/fadhilkurnia/shamir"
	virtRoot = "aaverif" // sorts before every package of the module
)

type listPkg struct {
	ImportPath     string
	Dir            string
	Name           string
	Export         string
	Standard       bool
	GoFiles        []string
	SFiles         []string
	IgnoredGoFiles []string
	Module         *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

type edit struct {
	off, end int // replace [off,end)
	text     string
	seq      int
}

type fileEdits struct {
	src   []byte
	edits []edit
}

func (f *fileEdits) ins(off int, s string) {
	f.edits = append(f.edits, edit{off, off, s, len(f.edits)})
}
func (f *fileEdits) rep(off, end int, s string) {
	f.edits = append(f.edits, edit{off, end, s, len(f.edits)})
}
func (f *fileEdits) bytes() ([]byte, error) {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].off != f.edits[j].off {
			return f.edits[i].off < f.edits[j].off
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range f.edits {
		if e.off < pos {
			return nil, fmt.Errorf("overlapping edits at offset %d", e.off)
		}
		out.Write(f.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(f.src[pos:])
	return out.Bytes(), nil
}

// render is the edited text of [a,b).
func (f *fileEdits) render(a, b int) string {
	sub := fileEdits{src: f.src[a:b]}
	for _, e := range f.edits {
		if e.off >= a && e.end <= b {
			sub.edits = append(sub.edits, edit{e.off - a, e.end - a, e.text, e.seq})
		}
	}
	o, err := sub.bytes()
	if err != nil {
		return string(f.src[a:b])
	}
	return string(o)
}

var importMap = map[string]string{
	"crypto/rand":                 "fake/cryptorand",
	"math/rand":                   "fake/mathrand",
	"math/rand/v2":                "fake/mathrandv2",
	"crypto/cipher":               "fake/cipher",
	"github.com/starius/aesctrat": "fake/aesctrat",
}
var importName = map[string]string{
	"crypto/rand": "rand", "math/rand": "rand", "math/rand/v2": "rand",
	"crypto/cipher": "cipher", "github.com/starius/aesctrat": "aesctrat", "sync": "sync",
}

type generator struct {
	repo, out string
	mode      string // plain, tape, sched
	tags      string
	overlay   map[string]string
	sites     []string
	env       []string
	modfile   string
	arm       bool // the arm64 files instead of the host's, assembly emulated
}

func (g *generator) goList(args ...string) ([]listPkg, error) {
	a := append([]string{"list", "-e", "-json"}, args...)
	cmd := exec.Command("go", a...)
	cmd.Dir = g.repo
	cmd.Env = g.env
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var ps []listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		ps = append(ps, p)
	}
	return ps, nil
}

// generate writes the transformed sources below g.out and fills g.overlay.
func (g *generator) generate() error {
	flags := []string{"-modfile=" + g.modfile, "-mod=mod"}
	if g.tags != "" {
		flags = append(flags, "-tags="+g.tags)
	}
	args := append([]string{}, flags...)
	if g.mode == "sched" {
		args = append(args, "-export", "-deps")
	}
	pkgs, err := g.goList(append(args, "./...")...)
	if err != nil {
		return err
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	armPkgs := map[string]listPkg{}
	if g.arm {
		host := g.env
		g.env = append(append([]string{}, host...), "GOARCH=arm64", "CGO_ENABLED=0")
		ps, err := g.goList("-modfile="+g.modfile, "-mod=mod", "./...")
		g.env = host
		if err != nil {
			return err
		}
		for _, p := range ps {
			armPkgs[p.ImportPath] = p
		}
	}
	for _, p := range pkgs {
		if p.Module == nil || !p.Module.Main || p.Name == "main" || p.ImportPath == modPath {
			continue
		}
		if strings.HasPrefix(p.ImportPath, modPath+"/"+virtRoot) {
			continue
		}
		if a, ok := armPkgs[p.ImportPath]; ok {
			if err := g.swapArch(&p, a); err != nil {
				return fmt.Errorf("%s: %v", p.ImportPath, err)
			}
		}
		if err := g.genPkg(p, exports); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	return nil
}

func (g *generator) genPkg(p listPkg, exports map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	var srcs [][]byte
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		from := path
		if o, ok := g.overlay[path]; ok {
			from = o
		}
		src, err := os.ReadFile(from)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, f)
		names = append(names, n)
		srcs = append(srcs, src)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	if g.mode == "sched" {
		conf := types.Config{
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				e, ok := exports[path]
				if !ok {
					return nil, fmt.Errorf("no export data for %s", path)
				}
				return os.Open(e)
			}),
			Error: func(error) {},
		}
		conf.Check(p.ImportPath, fset, files, info) // best effort: missing types only cost precision
	}
	for i, f := range files {
		fe := &fileEdits{src: srcs[i]}
		t := &xform{g: g, fset: fset, f: f, fe: fe, info: info, pkg: p, name: names[i]}
		t.run()
		b, err := fe.bytes()
		if err != nil {
			return err
		}
		dst := filepath.Join(g.out, p.Dir[len(g.repo):], names[i])
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			return err
		}
		g.overlay[filepath.Join(p.Dir, names[i])] = dst
	}
	return nil
}

type xform struct {
	g        *generator
	fset     *token.FileSet
	f        *ast.File
	fe       *fileEdits
	info     *types.Info
	pkg      listPkg
	name     string
	tmp      int
	schedUse bool
}

func (t *xform) off(p token.Pos) int { return t.fset.Position(p).Offset }
func (t *xform) text(a, b token.Pos) string {
	return string(t.fe.src[t.off(a):t.off(b)])
}

const schedPkg = modPath + "/" + virtRoot + "/vsched"

// pipes redirects io.Pipe, whose waiting the scheduler would not see.
func (t *xform) pipes() {
	local := ""
	ast.Inspect(t.f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok {
			return true
		}
		if pn, ok := t.info.Uses[id].(*types.PkgName); !ok || pn.Imported().Path() != "io" {
			return true
		}
		switch sel.Sel.Name {
		case "Pipe", "PipeReader", "PipeWriter":
			local = id.Name
			t.fe.rep(t.off(id.Pos()), t.off(id.End()), "verifpipe")
		}
		return true
	})
	if local != "" {
		t.fe.ins(t.off(t.f.Name.End()), "; import verifpipe \""+modPath+"/"+virtRoot+"/vpipe\"")
		t.fe.ins(len(t.fe.src), "\nvar _ "+local+".Reader\n")
	}
}

func (t *xform) run() {
	// redirect imports
	for _, is := range t.f.Imports {
		path := strings.Trim(is.Path.Value, "`\"")
		to, ok := importMap[path]
		if ok {
			to = modPath + "/" + virtRoot + "/" + to
		} else if path == "sync" && t.g.mode == "sched" {
			to, ok = modPath+"/"+virtRoot+"/vsync", true
		}
		if !ok {
			continue
		}
		if is.Name == nil {
			t.fe.rep(t.off(is.Path.Pos()), t.off(is.Path.End()), importName[path]+" \""+to+"\"")
		} else {
			t.fe.rep(t.off(is.Path.Pos()), t.off(is.Path.End()), "\""+to+"\"")
		}
	}
	// import the scheduler: right after the package clause
	t.fe.ins(t.off(t.f.Name.End()), "; import verifsched \""+schedPkg+"\"")
	if t.g.mode == "sched" {
		t.pipes()
	}

	// package-level state: resettable
	var vars []func() string
	var inits []string
	id := 0
	base := strings.NewReplacer(".", "_", "-", "_").Replace(t.name)
	for _, d := range t.f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				vs := s.(*ast.ValueSpec)
				if hasEmbed(d.Doc) || hasEmbed(vs.Doc) {
					continue
				}
				big := false
				for _, v := range vs.Values {
					if leafs(v) > 64 {
						big = true
					}
				}
				if big {
					continue
				}
				if len(vs.Values) > 0 {
					var ns []string
					blank := true
					for _, n := range vs.Names {
						ns = append(ns, n.Name)
						if n.Name != "_" {
							blank = false
						}
					}
					if blank {
						continue
					}
					a, b := t.off(vs.Values[0].Pos()), t.off(vs.Values[len(vs.Values)-1].End())
					vars = append(vars, func() string { return strings.Join(ns, ", ") + " = " + t.fe.render(a, b) })
				} else {
					for _, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						id++
						z := fmt.Sprintf("{ var verifZ%d %s; %s = verifZ%d }", id, t.text(vs.Type.Pos(), vs.Type.End()), n.Name, id)
						vars = append(vars, func() string { return z })
					}
				}
			}
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				nm := fmt.Sprintf("verifInit_%s_%d", base, len(inits))
				inits = append(inits, nm)
				t.fe.rep(t.off(d.Name.Pos()), t.off(d.Name.End()), nm)
			}
		}
	}
	if t.g.mode == "sched" {
		for _, d := range t.f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				isInit := fd.Recv == nil && fd.Name.Name == "init"
				t.walkFunc(fd.Body, !isInit)
			} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				// channels and function literals in variable initialisers
				t.walkFunc(gd, true)
			}
		}
	}
	var b strings.Builder
	b.WriteString("\n\nfunc init() {\n")
	for _, n := range inits {
		b.WriteString("\t" + n + "()\n")
	}
	fmt.Fprintf(&b, "\tverifsched.OnReset(%q, func() {\n", t.pkg.ImportPath)
	for _, v := range vars {
		b.WriteString("\t\t" + v() + "\n")
	}
	b.WriteString("\t}, func() {\n")
	for _, n := range inits {
		b.WriteString("\t\t" + n + "()\n")
	}
	b.WriteString("\t})\n}\n")
	t.fe.ins(len(t.fe.src), b.String())
}

func hasEmbed(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}

func leafs(e ast.Expr) int {
	n := 0
	ast.Inspect(e, func(x ast.Node) bool {
		if _, ok := x.(*ast.BasicLit); ok {
			n++
		}
		return true
	})
	return n
}

func (t *xform) site(p token.Pos) int {
	pos := t.fset.Position(p)
	t.g.sites = append(t.g.sites, fmt.Sprintf("%s/%s:%d", filepath.Base(t.pkg.Dir), filepath.Base(pos.Filename), pos.Line))
	return len(t.g.sites) - 1
}

// walkFunc instruments one function body (and the literals nested in it).
func (t *xform) walkFunc(body ast.Node, points bool) {
	parent := map[ast.Node]ast.Node{}
	var stack []ast.Node
	ast.Inspect(body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if len(stack) > 0 {
			parent[n] = stack[len(stack)-1]
		}
		stack = append(stack, n)
		return true
	})
	inSelectComm := func(n ast.Node) bool {
		for x := n; x != nil; x = parent[x] {
			if cc, ok := parent[x].(*ast.CommClause); ok && cc.Comm == x {
				return true
			}
			if _, ok := x.(*ast.BlockStmt); ok {
				return false
			}
			if _, ok := x.(*ast.FuncLit); ok {
				return false
			}
		}
		return false
	}
	point := func(list []ast.Stmt) {
		if !points {
			return
		}
		for _, s := range list {
			switch s := s.(type) {
			case *ast.EmptyStmt, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.DeclStmt:
				if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok != token.VAR {
					continue
				}
			}
			pos := s.Pos()
			t.fe.ins(t.off(pos), fmt.Sprintf("verifsched.P(%d); ", t.site(pos)))
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ForStmt:
			if len(n.Body.List) == 0 && points {
				// a loop that waits in its condition
				t.fe.ins(t.off(n.Body.Lbrace)+1, fmt.Sprintf(" verifsched.P(%d); ", t.site(n.Pos())))
			}
		case *ast.BlockStmt:
			point(n.List)
		case *ast.CaseClause:
			point(n.Body)
		case *ast.CommClause:
			point(n.Body)
		}
		switch n := n.(type) {
		case *ast.GoStmt:
			fn := "Go"
			if n.Call.Ellipsis.IsValid() {
				fn = "GoSlice"
			}
			if id, ok := n.Call.Fun.(*ast.Ident); ok {
				if _, isB := t.info.Uses[id].(*types.Builtin); isB {
					return true
				}
			}
			t.fe.rep(t.off(n.Go), t.off(n.Call.Fun.Pos()), "verifsched."+fn+"(")
			sep := ""
			if len(n.Call.Args) > 0 {
				sep = ", "
			}
			t.fe.rep(t.off(n.Call.Lparen), t.off(n.Call.Lparen)+1, sep)
			if n.Call.Ellipsis.IsValid() {
				t.fe.rep(t.off(n.Call.Ellipsis), t.off(n.Call.Ellipsis)+3, "")
			}
		case *ast.SendStmt:
			if inSelectComm(n) {
				return true
			}
			t.fe.ins(t.off(n.Pos()), "verifsched.Send(")
			t.fe.rep(t.off(n.Arrow), t.off(n.Arrow)+2, ",")
			t.fe.ins(t.off(n.End()), ")")
		case *ast.UnaryExpr:
			if n.Op != token.ARROW || inSelectComm(n) {
				return true
			}
			fn := "Recv"
			switch p := parent[n].(type) {
			case *ast.AssignStmt:
				if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
					fn = "Recv2"
				}
			case *ast.ValueSpec:
				if len(p.Names) == 2 && len(p.Values) == 1 {
					fn = "Recv2"
				}
			}
			t.fe.rep(t.off(n.OpPos), t.off(n.OpPos)+2, "verifsched."+fn+"(")
			t.fe.ins(t.off(n.End()), ")")
		case *ast.SelectStmt:
			hasDefault := false
			for _, c := range n.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					hasDefault = true
				}
			}
			if !hasDefault && points {
				t.tmp++
				lbl := fmt.Sprintf("verifSel%d_%d", t.off(n.Pos()), t.tmp)
				at := ast.Node(n)
				for {
					l, ok := parent[at].(*ast.LabeledStmt)
					if !ok {
						break
					}
					at = l // a break may name the label, which must stay next to the select
				}
				t.fe.ins(t.off(at.Pos()), lbl+": ")
				t.fe.ins(t.off(n.Body.Rbrace), "\ndefault: verifsched.Block(); goto "+lbl+"\n")
			}
		case *ast.RangeStmt:
			tv, ok := t.info.Types[n.X]
			if !ok {
				return true
			}
			if _, isChan := tv.Type.Underlying().(*types.Chan); !isChan {
				return true
			}
			x := t.text(n.X.Pos(), n.X.End())
			head := "for { "
			t.tmp++
			okv := fmt.Sprintf("verifOk%d", t.tmp)
			if n.Key == nil {
				head += fmt.Sprintf("_, %s := verifsched.Recv2(%s); if !%s { break }; ", okv, x, okv)
			} else if n.Tok == token.DEFINE {
				head += fmt.Sprintf("%s, %s := verifsched.Recv2(%s); if !%s { break }; ", t.text(n.Key.Pos(), n.Key.End()), okv, x, okv)
			} else {
				head += fmt.Sprintf("var %s bool; %s, %s = verifsched.Recv2(%s); if !%s { break }; ", okv, t.text(n.Key.Pos(), n.Key.End()), okv, x, okv)
			}
			t.fe.rep(t.off(n.For), t.off(n.Body.Lbrace)+1, head)
		case *ast.CallExpr:
			id, ok := n.Fun.(*ast.Ident)
			if !ok {
				return true
			}
			if _, isB := t.info.Uses[id].(*types.Builtin); !isB {
				return true
			}
			if id.Name == "close" {
				t.fe.rep(t.off(id.Pos()), t.off(id.End()), "verifsched.Close")
			}
			if id.Name == "make" && len(n.Args) == 1 {
				if tv, ok := t.info.Types[n.Args[0]]; ok {
					if _, isChan := tv.Type.Underlying().(*types.Chan); isChan {
						t.fe.ins(t.off(n.Pos()), "verifsched.Unbuf(")
						t.fe.ins(t.off(n.Args[0].End()), ", 1")
						t.fe.ins(t.off(n.End()), ")")
					}
				}
			}
		case *ast.IncDecStmt:
			if points && t.shared(n.X) && t.stmtPos(parent[n], n) {
				t.splitRMW(n.Pos(), n.End(), n.X, map[token.Token]string{token.INC: "+", token.DEC: "-"}[n.Tok], "1")
				return false
			}
		case *ast.AssignStmt:
			if !points || len(n.Lhs) != 1 || n.Tok == token.DEFINE {
				return true
			}
			if n.Tok == token.ASSIGN {
				// x = f(x): the read and the write are separate steps
				l := t.text(n.Lhs[0].Pos(), n.Lhs[0].End())
				if t.shared(n.Lhs[0]) && t.stmtPos(parent[n], n) && !hasFuncLit(n) && !hasArrow(n) && !hasChanOp(t, n) &&
					strings.Contains(t.text(n.Rhs[0].Pos(), n.Rhs[0].End()), l) {
					t.tmp++
					v := fmt.Sprintf("verifP%d", t.tmp)
					t.fe.rep(t.off(n.Pos()), t.off(n.End()), fmt.Sprintf("{ %s := &(%s); %sv := *%s; %sv = %s; verifsched.P(%d); *%s = %sv }",
						v, l, v, v, v, t.text(n.Rhs[0].Pos(), n.Rhs[0].End()), t.site(n.Pos()), v, v))
					return false
				}
				return true
			}
			if t.shared(n.Lhs[0]) && t.stmtPos(parent[n], n) && !hasFuncLit(n) && !hasArrow(n) {
				op := strings.TrimSuffix(n.Tok.String(), "=")
				t.splitRMW(n.Pos(), n.End(), n.Lhs[0], op, "("+t.text(n.Rhs[0].Pos(), n.Rhs[0].End())+")")
				return false
			}
		}
		return true
	})
}

func hasFuncLit(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if _, ok := x.(*ast.FuncLit); ok {
			r = true
		}
		return !r
	})
	return r
}

// hasChanOp: contains a make or close call that itself needs rewriting.
func hasChanOp(t *xform, n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if c, ok := x.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "make" || id.Name == "close") {
				r = true
			}
		}
		return !r
	})
	return r
}
func hasArrow(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			r = true
		}
		return !r
	})
	return r
}

func (t *xform) stmtPos(p ast.Node, n ast.Stmt) bool {
	switch p := p.(type) {
	case *ast.BlockStmt:
		return true
	case *ast.CaseClause:
		return true
	case *ast.CommClause:
		return p.Comm != n
	}
	return false
}

// shared: a package-level variable or a field reached through a selector
// (addressable). Plain locals and slice elements stay atomic.
func (t *xform) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return t.shared(e.X)
	case *ast.Ident:
		v, ok := t.info.Uses[e].(*types.Var)
		return ok && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	case *ast.SelectorExpr:
		tv, ok := t.info.Types[e]
		return ok && tv.Addressable()
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		// elements of package-level or field slices and arrays (not of maps)
		tv, ok := t.info.Types[e.X]
		if !ok || tv.Type == nil {
			return false
		}
		switch u := tv.Type.Underlying().(type) {
		case *types.Slice, *types.Array:
			return t.shared(e.X)
		case *types.Pointer:
			_, isArr := u.Elem().Underlying().(*types.Array)
			return isArr && t.shared(e.X)
		}
	}
	return false
}

func (t *xform) splitRMW(a, b token.Pos, lhs ast.Expr, op, rhs string) {
	t.tmp++
	v := fmt.Sprintf("verifP%d", t.tmp)
	l := t.text(lhs.Pos(), lhs.End())
	t.fe.rep(t.off(a), t.off(b), fmt.Sprintf("{ %s := &(%s); %sv := *%s; verifsched.P(%d); *%s = %sv %s %s }", v, l, v, v, t.site(a), v, v, op, rhs))
}

// buildExprOK reports whether a file's constraints parse (diagnostics only).
func buildExprOK(line string) bool {
	_, err := constraint.Parse(line)
	return err == nil
}
