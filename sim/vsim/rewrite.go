package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Packages replaced by the simulator's own.
var shims = map[string]string{
	"os": "zsim/os", "os/signal": "zsim/signal", "sync": "zsim/sync", "time": "zsim/time",
	"math/rand": "zsim/rand", "path/filepath": "zsim/filepath", "runtime": "zsim/runtime",
	"fmt": "zsim/fmt", "maps": "zsim/maps", "syscall": "zsim/syscall",
	"golang.org/x/sys/unix": "zsim/unix", "github.com/mattn/go-isatty": "zsim/isatty",
	"github.com/peterh/liner": "zsim/liner",
}

// Packages that are pure functions of their arguments.
var pure = map[string]bool{
	"errors": true, "bufio": true, "bytes": true, "strings": true, "strconv": true, "sort": true,
	"math": true, "math/big": true, "math/bits": true, "math/cmplx": true, "unicode": true, "unicode/utf8": true,
	"unicode/utf16": true, "regexp": true, "regexp/syntax": true, "io": true, "io/fs": true, "path": true,
	"container/list": true, "container/heap": true, "container/ring": true, "slices": true, "cmp": true,
	"text/tabwriter": true, "text/template": true, "encoding": true, "encoding/json": true, "encoding/binary": true,
	"encoding/hex": true, "encoding/base64": true, "hash": true, "hash/fnv": true, "hash/crc32": true,
	"unsafe": true, "reflect": true, "sync/atomic": true, "embed": true, "context": true, "iter": true,
	"unique": true, "text/scanner": true, "crypto/sha256": true, "crypto/md5": true, "crypto/sha1": true,
	"github.com/mattn/go-runewidth": true, "github.com/rivo/uniseg": true,
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path, Version, Dir, GoVersion string
		Main                          bool
	}
	Error *struct{ Err string }
}

// Transformed module dependencies (copied and rewritten).
var depModules = []string{"github.com/michaelmacinnis/adapted", "github.com/docopt/docopt-go"}

type edit struct {
	off, end int
	text     string
	seq      int
	open     bool
}

type rewriter struct {
	fset    *token.FileSet
	src     []byte
	tf      *token.File
	info    *types.Info
	edits   []edit
	seq     int
	names   int
	path    string
	self    map[string]bool // Import paths that stay as they are.
	funcs   []ast.Node
	problem []string
}

func (r *rewriter) off(p token.Pos) int { return r.tf.Offset(p) }

func (r *rewriter) bad(n ast.Node, format string, args ...any) {
	r.problem = append(r.problem, fmt.Sprintf("%s: %s", r.fset.Position(n.Pos()), fmt.Sprintf(format, args...)))
}

func (r *rewriter) open(at token.Pos, s string) {
	r.seq++
	o := r.off(at)
	r.edits = append(r.edits, edit{o, o, s, r.seq, true})
}

func (r *rewriter) close(at token.Pos, s string) {
	r.seq++
	o := r.off(at)
	r.edits = append(r.edits, edit{o, o, s, r.seq, false})
}

func (r *rewriter) replace(a, b token.Pos, s string) {
	r.seq++
	r.edits = append(r.edits, edit{r.off(a), r.off(b), s + r.newlines(r.off(a), r.off(b)), r.seq, true})
}

// newlines keeps the line numbering.
func (r *rewriter) newlines(a, b int) string {
	return strings.Repeat("\n", bytes.Count(r.src[a:b], []byte("\n")))
}

// sub renders a node with its rewrites applied.
func (r *rewriter) sub(n ast.Node) string {
	c := *r
	c.edits = nil
	c.walk(n)
	r.names, r.seq, r.problem = c.names, c.seq, c.problem

	return string(apply(c.src, c.edits, r.off(n.Pos()), r.off(n.End())))
}

func apply(src []byte, edits []edit, from, to int) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		a, b := edits[i], edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// At one place: closings first (innermost, that is the latest, first),
		// then openings (outermost first), then replacements.
		ka, kb := kind(a), kind(b)
		if ka != kb {
			return ka < kb
		}
		if ka == 0 {
			return a.seq > b.seq
		}

		return a.seq < b.seq
	})

	var out bytes.Buffer

	pos := from
	for _, e := range edits {
		if e.off < pos {
			panic(fmt.Sprintf("overlapping edits at %d (%q)", e.off, e.text))
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:to])

	return out.Bytes()
}

func kind(e edit) int {
	switch {
	case e.end > e.off:
		return 2
	case e.open:
		return 1
	}

	return 0
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := r.info.Uses[id]; o != nil {
				return o.Type()
			}
		}

		return nil
	}

	return tv.Type
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		i, _ := tp.Constraint().Underlying().(*types.Interface)
		if i != nil && i.NumEmbeddeds() == 1 {
			if u, ok := i.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return u.Term(0).Type().Underlying()
			}
		}
	}

	return t.Underlying()
}

func (r *rewriter) isChan(e ast.Expr) bool { _, ok := core(r.typ(e)).(*types.Chan); return ok }
func (r *rewriter) isMap(e ast.Expr) bool  { _, ok := core(r.typ(e)).(*types.Map); return ok }

func (r *rewriter) pointerKey(e ast.Expr) bool {
	m, ok := core(r.typ(e)).(*types.Map)
	if !ok {
		return false
	}
	_, ok = m.Key().Underlying().(*types.Pointer)

	return ok
}

func (r *rewriter) builtin(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}

	return ""
}

func (r *rewriter) walkAll(ns ...ast.Node) {
	for _, n := range ns {
		r.walk(n)
	}
}

func (r *rewriter) exprs(l []ast.Expr) {
	for _, e := range l {
		r.walk(e)
	}
}

// stmts instruments a list of statements.
func (r *rewriter) stmts(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.CaseClause:
			r.walk(s)

			continue
		}
		r.open(s.Pos(), "zrt.Y(); ")
		r.walk(s)
	}
}

func (r *rewriter) body(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	if len(b.List) == 0 {
		r.open(b.Rbrace, "zrt.Y() ")

		return
	}
	r.stmts(b.List)
}

func (r *rewriter) name(p string) string {
	r.names++

	return fmt.Sprintf("_z%s%d", p, r.names)
}

// lhs handles an assignment target.
func (r *rewriter) lhs(e ast.Expr) {
	switch x := e.(type) {
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			r.mapWrite(x)

			return
		}
	case *ast.ParenExpr:
		r.lhs(x.X)

		return
	}
	r.walk(e)
}

func (r *rewriter) mapWrite(x *ast.IndexExpr) {
	r.open(x.X.Pos(), "zrt.MW(")
	r.walk(x.X)
	r.close(x.X.End(), ")")
	if r.pointerKey(x.X) {
		r.open(x.Index.Pos(), "zrt.Note(")
		r.walk(x.Index)
		r.close(x.Index.End(), ")")
	} else {
		r.walk(x.Index)
	}
}

func (r *rewriter) walk(n ast.Node) {
	if n == nil {
		return
	}

	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case nil:
			return false

		case *ast.GenDecl:
			return x.Tok != token.IMPORT

		case *ast.BlockStmt:
			if len(x.List) == 0 {
				return false
			}
			r.stmts(x.List)

			return false

		case *ast.ForStmt:
			if x.Init != nil {
				r.walk(x.Init)
			}
			if x.Cond != nil {
				r.walk(x.Cond)
			}
			if x.Post != nil {
				r.walk(x.Post)
			}
			r.body(x.Body)

			return false

		case *ast.CaseClause:
			r.exprs(x.List)
			r.stmts(x.Body)

			return false

		case *ast.GoStmt:
			r.goStmt(x)

			return false

		case *ast.SendStmt:
			r.open(x.Chan.Pos(), "zrt.SendOn(")
			r.walk(x.Chan)
			r.replace(x.Chan.End(), x.Value.Pos(), ")(")
			r.walk(x.Value)
			r.close(x.Value.End(), ")")

			return false

		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r.recv(x, "Recv")

				return false
			}

		case *ast.SelectStmt:
			r.selectStmt(x)

			return false

		case *ast.RangeStmt:
			r.rangeStmt(x)

			return false

		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				r.exprs(x.Lhs)
			} else {
				for _, e := range x.Lhs {
					r.lhs(e)
				}
			}
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv(u, "Recv2")

					return false
				}
			}
			r.exprs(x.Rhs)

			return false

		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv(u, "Recv2")

					return false
				}
			}

		case *ast.IncDecStmt:
			r.lhs(x.X)

			return false

		case *ast.IndexExpr:
			if r.isMap(x.X) {
				r.open(x.X.Pos(), "zrt.MR(")
				r.walk(x.X)
				r.close(x.X.End(), ")")
				r.walk(x.Index)

				return false
			}

		case *ast.CompositeLit:
			if m, ok := core(r.typ(x)).(*types.Map); ok {
				if _, ok := m.Key().Underlying().(*types.Pointer); ok {
					for _, e := range x.Elts {
						kv := e.(*ast.KeyValueExpr)
						r.open(kv.Key.Pos(), "zrt.Note(")
						r.walk(kv.Key)
						r.close(kv.Key.End(), ")")
						r.walk(kv.Value)
					}

					return false
				}
			}

		case *ast.CallExpr:
			return r.call(x)
		}

		return true
	})
}

func (r *rewriter) recv(x *ast.UnaryExpr, f string) {
	r.replace(x.OpPos, x.X.Pos(), "zrt."+f+"(")
	r.walk(x.X)
	r.close(x.X.End(), ")")
}

func (r *rewriter) call(x *ast.CallExpr) bool {
	b := r.builtin(x.Fun)
	if b == "" {
		return true
	}

	fun := func(s string) {
		r.replace(x.Fun.Pos(), x.Fun.End(), s)
		r.exprs(x.Args)
	}

	switch b {
	case "close":
		fun("zrt.Close")

		return false
	case "len":
		if c, ok := core(r.typ(x.Args[0])).(*types.Chan); ok {
			if c.Dir() == types.SendOnly {
				fun("zrt.LenS")
			} else {
				fun("zrt.Len")
			}

			return false
		}
	case "delete":
		r.open(x.Args[0].Pos(), "zrt.MW(")
		r.walk(x.Args[0])
		r.close(x.Args[0].End(), ")")
		r.walk(x.Args[1])

		return false
	case "clear":
		if r.isMap(x.Args[0]) {
			r.open(x.Args[0].Pos(), "zrt.MW(")
			r.walk(x.Args[0])
			r.close(x.Args[0].End(), ")")

			return false
		}
	case "println":
		fun("zrt.Println")

		return false
	case "print":
		fun("zrt.Print")

		return false
	}

	return true
}

func (r *rewriter) simpleArg(e ast.Expr) bool {
	tv := r.info.Types[e]

	return tv.Value != nil || tv.IsNil()
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	c := x.Call

	if b := r.builtin(c.Fun); b != "" {
		s := r.sub(c)
		_ = s
		// Arguments of builtins: evaluate in the new task only if constant.
		r.bad(x, "go statement with the builtin %s", b)

		return
	}

	if _, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.replace(x.Go, c.Fun.Pos(), "zrt.Go(")
		r.walk(c.Fun)
		r.replace(c.Lparen, c.Rparen+1, ")")

		return
	}

	f := r.name("f")
	text := "{ " + f + " := " + r.sub(c.Fun)
	call := f + "("

	for i, a := range c.Args {
		if i > 0 {
			call += ", "
		}
		if r.simpleArg(a) {
			call += r.sub(a)
		} else {
			v := r.name("a")
			text += "; " + v + " := " + r.sub(a)
			call += v
		}
	}
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	text += "; zrt.Go(func() { " + call + ") }) }"

	// Keep the number of lines.
	have := strings.Count(text, "\n")
	want := bytes.Count(r.src[r.off(x.Pos()):r.off(x.End())], []byte("\n"))
	for ; have < want; have++ {
		text += "\n"
	}
	r.seq++
	r.edits = append(r.edits, edit{r.off(x.Pos()), r.off(x.End()), text, r.seq, true})
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) {
	var (
		names, inits []string
		heads        []string
		def          = "false"
	)

	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)

		if cc.Comm == nil {
			def = "true"
			heads = append(heads, "case -1:")

			continue
		}

		n := r.name("c")
		names = append(names, n)
		idx := len(names) - 1
		head := fmt.Sprintf("case %d:", idx)

		recv := func(e ast.Expr) string {
			u := ast.Unparen(e).(*ast.UnaryExpr)

			return "zrt.CRecv(" + r.sub(u.X) + ")"
		}

		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "zrt.CSend("+r.sub(c.Chan)+")("+r.sub(c.Value)+")")
		case *ast.ExprStmt:
			inits = append(inits, recv(c.X))
		case *ast.AssignStmt:
			inits = append(inits, recv(c.Rhs[0]))
			l := []string{}
			blank := true
			for _, e := range c.Lhs {
				s := r.sub(e)
				if s != "_" {
					blank = false
				}
				l = append(l, s)
			}
			m := ".V()"
			if len(l) == 2 {
				m = ".V2()"
			}
			tok := c.Tok.String()
			if blank {
				tok = "="
			}
			head += " " + strings.Join(l, ", ") + " " + tok + " " + n + m + ";"
		}
		heads = append(heads, head)
	}

	text := "switch "
	if len(names) > 0 {
		text += strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
		text += "zrt.Select(" + def + ", " + strings.Join(names, ", ") + ")"
	} else {
		text += "zrt.Select(" + def + ")"
	}
	text = strings.ReplaceAll(text, "\n", " ")

	r.replace(x.Select, x.Body.Lbrace, text+" ")

	for i, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		r.replace(cc.Pos(), cc.Colon+1, strings.ReplaceAll(heads[i], "\n", " "))
		r.stmts(cc.Body)
	}
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) {
	ch, mp := r.isChan(x.X), r.isMap(x.X)
	if !ch && !mp {
		if x.Tok == token.ASSIGN {
			if x.Key != nil {
				r.lhs(x.Key)
			}
			if x.Value != nil {
				r.lhs(x.Value)
			}
		}
		r.walk(x.X)
		r.body(x.Body)

		return
	}

	it := r.name("i")
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)

		return ok && id.Name == "_"
	}

	vars := []string{}
	next := []string{}
	one := func(e ast.Expr) {
		switch {
		case blank(e):
			vars = append(vars, "_")
			next = append(next, "nil")
		case x.Tok == token.DEFINE:
			vars = append(vars, r.sub(e))
			next = append(next, "&"+r.sub(e))
		default:
			vars = append(vars, "_")
			next = append(next, "&"+r.sub(e))
		}
	}

	one(x.Key)
	f := "RangeChan"
	if mp {
		one(x.Value)
		f = "RangeMap"
	}

	text := "for " + it + ", " + strings.Join(vars, ", ") + " := zrt." + f + "(" + r.sub(x.X) + "); " +
		it + ".Next(" + strings.Join(next, ", ") + "); "
	r.replace(x.For, x.Body.Lbrace, strings.ReplaceAll(text, "\n", " "))
	r.body(x.Body)
}

func (r *rewriter) imports(f *ast.File) {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)

		switch {
		case shims[p] != "":
			r.replace(im.Path.Pos(), im.Path.End(), strconv.Quote(shims[p]))
		case pure[p] || r.self[p]:
		default:
			r.bad(im, "no simulated version of the imported package %q", p)
		}
	}
}

// rewriteFile returns the transformed source.
func rewriteFile(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, self map[string]bool, isMain bool) ([]byte, []string) {
	r := &rewriter{fset: fset, src: src, tf: fset.File(f.Pos()), info: info, self: self}
	r.imports(f)
	r.open(f.Name.End(), `; import zrt "zsim/rt"; import _ "zsim/scen"`)

	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			if isMain && fd.Recv == nil && fd.Name.Name == "main" {
				r.replace(fd.Name.Pos(), fd.Name.End(), "zsimMain")
			}
			if fd.Body == nil {
				r.bad(fd, "function %s has no body", fd.Name.Name)
			}
		}
		r.walk(d)
	}

	out := apply(src, r.edits, 0, len(src))
	out = append(out, []byte("\nvar _ = zrt.Y\n")...)

	return out, r.problem
}

// ---------------------------------------------------------------- Driver.

func goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Stderr = os.Stderr

	return c
}

func list(dir string, args ...string) ([]*listPkg, error) {
	c := goCmd(dir, append([]string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,Standard,ImportMap,Module,Error"}, args...)...)
	b, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}

	var l []*listPkg
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := d.Decode(p); err == io.EOF {
			return l, nil
		} else if err != nil {
			return nil, err
		}
		l = append(l, p)
	}
}

// transform rewrites the program's packages into build, and returns the overlay.
func transform(repo, build, zsim string) error {
	pkgs, err := list(repo, ".")
	if err != nil {
		return err
	}

	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}

	dep := map[string]bool{}
	for _, m := range depModules {
		dep[m] = true
	}

	self := map[string]bool{}
	var targets []*listPkg
	mods := map[string]*listPkg{}
	for _, p := range pkgs {
		if p.Error != nil {
			return fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		if p.Module == nil {
			continue
		}
		if p.Module.Main || dep[p.Module.Path] {
			self[p.ImportPath] = true
			targets = append(targets, p)
			if !p.Module.Main {
				mods[p.Module.Path] = p
			}
		}
	}

	gen := filepath.Join(build, "gen")
	if err := os.RemoveAll(gen); err != nil {
		return err
	}

	over := map[string]string{}
	var problems []string

	for _, p := range targets {
		if len(p.CgoFiles) > 0 {
			return fmt.Errorf("%s uses cgo", p.ImportPath)
		}

		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m := p.ImportMap[path]; m != "" {
				path = m
			}
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}

			return os.Open(e)
		})

		var files []*ast.File
		var srcs [][]byte
		for _, n := range p.GoFiles {
			fn := filepath.Join(p.Dir, n)
			src, err := os.ReadFile(fn)
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			files = append(files, f)
			srcs = append(srcs, src)
		}

		gv := p.Module.GoVersion
		if gv != "" {
			gv = "go" + gv
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: gv}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}

		for i, f := range files {
			out, bad := rewriteFile(fset, f, srcs[i], info, self, p.ImportPath != "" && p.Name == "main")
			problems = append(problems, bad...)

			fn := filepath.Join(p.Dir, p.GoFiles[i])
			var dst string
			if p.Module.Main {
				rel, err := filepath.Rel(repo, fn)
				if err != nil {
					return err
				}
				dst = filepath.Join(gen, "repo", rel)
				over[fn] = dst
			} else {
				rel, err := filepath.Rel(p.Module.Dir, fn)
				if err != nil {
					return err
				}
				dst = filepath.Join(gen, "dep", filepath.Base(p.Module.Path), rel)
			}
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(dst, out, 0o644); err != nil {
				return err
			}
		}
	}

	if len(problems) > 0 {
		return fmt.Errorf("cannot simulate:\n%s", strings.Join(problems, "\n"))
	}

	main := filepath.Join(gen, "zz_zsim_main.go")
	if err := os.WriteFile(main, []byte("package main\n\nimport \"zsim/sim\"\n\nfunc main() { sim.Main(zsimMain) }\n"), 0o644); err != nil {
		return err
	}
	over[filepath.Join(repo, "zz_zsim_main.go")] = main

	b, _ := json.MarshalIndent(map[string]any{"Replace": over}, "", " ")
	if err := os.WriteFile(filepath.Join(gen, "overlay.json"), b, 0o644); err != nil {
		return err
	}

	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	s := string(mod) + "\nrequire zsim v0.0.0\n\nreplace zsim => " + zsim + "\n"
	for _, m := range depModules {
		p := mods[m]
		if p == nil {
			continue
		}
		d := filepath.Join(gen, "dep", filepath.Base(m))
		g := p.Module.GoVersion
		if g == "" || old(g) {
			g = "1.18" // Before 1.22: the loop variables' meaning is the same.
		}
		if err := os.WriteFile(filepath.Join(d, "go.mod"), []byte("module "+m+"\n\ngo "+g+"\n"), 0o644); err != nil {
			return err
		}
		s += "\nreplace " + m + " => " + d + "\n"
	}
	if err := os.WriteFile(filepath.Join(gen, "go.mod"), []byte(s), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return err
	}

	return os.WriteFile(filepath.Join(gen, "go.sum"), sum, 0o644)
}

// old reports whether a language version lacks generics.
func old(g string) bool {
	p := strings.Split(g, ".")
	if len(p) < 2 {
		return true
	}
	n, _ := strconv.Atoi(p[1])

	return p[0] == "1" && n < 18
}

// compile builds the simulated program.
func compile(repo, build, out string) error {
	gen := filepath.Join(build, "gen")
	c := goCmd(repo, "build", "-overlay", filepath.Join(gen, "overlay.json"), "-modfile", filepath.Join(gen, "go.mod"), "-o", out, ".")
	var buf bytes.Buffer
	c.Stderr = &buf
	if err := c.Run(); err != nil {
		return fmt.Errorf("building the simulated program: %v\n%s", err, buf.String())
	}

	return nil
}
