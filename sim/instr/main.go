// Command instr rewrites the non-test Go sources of the repository under test
// so that they run under the deterministic simulator, and writes a `go build
// -overlay` file. Nothing in the repository itself is touched.
//
// Rewrites (textual insertions, line numbers are preserved):
//   - simrt.Y(site) before every statement and at the start of every function
//     and loop body: the points at which the simulator may switch tasks or
//     inject a fault;
//   - import "sync" becomes the simulated package simsync (scheduler-aware
//     locks, wait groups, pool);
//   - `go f(x)` becomes simrt.Go, so goroutines the code starts are simulated
//     tasks;
//   - channel sends/receives and selects without default poll through the
//     scheduler;
//   - the clock (time.Now, Since, Until, Sleep) and math/rand are simulated;
//   - ranging over a map has the same order in every run.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	seq  int
	del  int
	text string
}

type siteInfo struct {
	Site int    `json:"site"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
}

var sites []siteInfo

func main() {
	repo := flag.String("repo", "/repo", "repository root")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		fatal("missing -out")
	}
	var files []string
	err := filepath.Walk(*repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			name := info.Name()
			if path != *repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor") {
				return filepath.SkipDir
			}
			rel, _ := filepath.Rel(*repo, path)
			if rel == "bench" {
				return filepath.SkipDir
			}
			if path != *repo {
				if _, e := os.Stat(filepath.Join(path, "go.mod")); e == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			files = append(files, path)
		}
		return nil
	})
	if err != nil {
		fatal(err)
	}
	sort.Strings(files)
	maps := mapRanges(*repo, files)
	replace := map[string]string{}
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		res, changed, err := rewrite(*repo, f, src, maps[f])
		if err != nil {
			fatal(fmt.Sprintf("%v: %v", f, err))
		}
		if !changed {
			continue
		}
		rel, _ := filepath.Rel(*repo, f)
		dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__")+".txt")
		if err := os.WriteFile(dst, res, 0644); err != nil {
			fatal(err)
		}
		replace[f] = dst
	}
	data, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), data, 0644); err != nil {
		fatal(err)
	}
	data, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), data, 0644); err != nil {
		fatal(err)
	}
	fmt.Printf("instrumented %d files, %d sites\n", len(replace), len(sites))
}

func fatal(v interface{}) {
	fmt.Fprintln(os.Stderr, "instr:", v)
	os.Exit(2)
}

type rw struct {
	fset     *token.FileSet
	rel      string
	list     []ins
	usedRT   bool
	fn       string
	skip     map[ast.Node]bool
	usedSyn  bool
	generics bool
	maps     map[int]bool // offsets of range statements over maps
	time     string       // name of the time package
	timeUsed bool
}

// mapRanges finds the range statements over maps, by file and offset. It type
// checks the repository alone: what comes from other modules is unknown, and
// ranges over it are left as they are.
func mapRanges(repo string, files []string) map[string]map[int]bool {
	mod := ""
	if data, err := os.ReadFile(filepath.Join(repo, "go.mod")); err == nil {
		for _, l := range strings.Split(string(data), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
				mod = f[1]
			}
		}
	}
	c := &checker{mod: mod, fset: token.NewFileSet(), files: map[string][]*ast.File{}, pkgs: map[string]*types.Package{}, res: map[string]map[int]bool{}}
	for _, f := range files {
		file, err := parser.ParseFile(c.fset, f, nil, parser.ParseComments)
		if err != nil {
			continue
		}
		if cons := file.Comments; len(cons) > 0 && cons[0].Pos() < file.Package && strings.Contains(cons[0].Text(), "go:build") {
			continue
		}
		rel, _ := filepath.Rel(repo, filepath.Dir(f))
		path := mod
		if rel != "." {
			path = mod + "/" + filepath.ToSlash(rel)
		}
		c.files[path] = append(c.files[path], file)
	}
	for path := range c.files {
		c.Import(path)
	}
	return c.res
}

type checker struct {
	mod   string
	fset  *token.FileSet
	files map[string][]*ast.File
	pkgs  map[string]*types.Package
	res   map[string]map[int]bool
}

// Import implements types.Importer.
func (c *checker) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := c.pkgs[path]; ok {
		return p, nil
	}
	files := c.files[path]
	if files == nil {
		p := types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
		p.MarkComplete()
		c.pkgs[path] = p
		return p, nil
	}
	c.pkgs[path] = types.NewPackage(path, files[0].Name.Name)
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: c, Error: func(error) {}, FakeImportC: true, DisableUnusedImportCheck: true}
	p, _ := conf.Check(path, c.fset, files, info)
	if p != nil {
		c.pkgs[path] = p
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok {
				return true
			}
			if t := info.Types[r.X].Type; t != nil {
				if _, isMap := t.Underlying().(*types.Map); isMap {
					pos := c.fset.Position(r.For)
					if c.res[pos.Filename] == nil {
						c.res[pos.Filename] = map[int]bool{}
					}
					c.res[pos.Filename][pos.Offset] = true
				}
			}
			return true
		})
	}
	return c.pkgs[path], nil
}

func (r *rw) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rw) add(off, del int, text string) {
	r.list = append(r.list, ins{off: off, seq: len(r.list), del: del, text: text})
}

func (r *rw) yield(p token.Pos) {
	pos := r.fset.Position(p)
	id := len(sites)
	sites = append(sites, siteInfo{Site: id, Pos: fmt.Sprintf("%s:%d", r.rel, pos.Line), Func: r.fn})
	r.usedRT = true
	r.add(pos.Offset, 0, fmt.Sprintf("simrt_.Y(%d);", id))
}

func rewrite(repo, path string, src []byte, maps map[int]bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	for _, cg := range file.Comments {
		for _, c := range cg.List {
			if c.Pos() < file.Package && constraint.IsGoBuild(c.Text) && strings.Contains(c.Text, "ignore") {
				return nil, false, nil
			}
		}
	}
	for _, imp := range file.Imports {
		if imp.Path.Value == `"C"` {
			return nil, false, nil
		}
	}
	rel, _ := filepath.Rel(repo, path)
	r := &rw{fset: fset, rel: rel, skip: map[ast.Node]bool{}, maps: maps}

	for _, imp := range file.Imports {
		if imp.Path.Value == `"sync"` {
			r.usedSyn = true
			off := r.off(imp.Path.Pos())
			name := ""
			if imp.Name == nil {
				name = "sync "
			}
			r.add(off, len(imp.Path.Value), name+`"verifsim/simsync"`)
		}
		if imp.Path.Value == `"math/rand"` {
			name := ""
			if imp.Name == nil {
				name = "rand "
			}
			r.add(r.off(imp.Path.Pos()), len(imp.Path.Value), name+`"verifsim/simrand"`)
		}
		if imp.Path.Value == `"time"` {
			r.time = "time"
			if imp.Name != nil {
				r.time = imp.Name.Name
			}
		}
	}

	for _, decl := range file.Decls {
		switch d := decl.(type) {
		case *ast.FuncDecl:
			if d.Body == nil {
				continue
			}
			if hasDirective(d.Doc) {
				continue
			}
			r.fn = d.Name.Name
			if d.Recv != nil && len(d.Recv.List) == 1 {
				r.fn = recvName(d.Recv.List[0].Type) + "." + r.fn
			}
			r.walk(d.Body)
		case *ast.GenDecl:
			r.fn = "init"
			r.walk(d)
		}
	}
	if r.usedRT {
		off := r.off(file.Name.End())
		r.add(off, 0, `;import simrt_ "verifsim/simrt"`)
	}
	if len(r.list) == 0 {
		return nil, false, nil
	}
	sort.SliceStable(r.list, func(i, j int) bool {
		if r.list[i].off != r.list[j].off {
			return r.list[i].off < r.list[j].off
		}
		return r.list[i].seq < r.list[j].seq
	})
	var buf bytes.Buffer
	if r.generics {
		// generic helpers need a newer language version than go.mod declares;
		// "//line" keeps positions
		buf.WriteString("//go:build go1.21\n\n//line " + path + ":1\n")
	}
	last := 0
	for _, x := range r.list {
		if x.off < last {
			return nil, false, fmt.Errorf("overlapping edits at offset %d", x.off)
		}
		buf.Write(src[last:x.off])
		buf.WriteString(x.text)
		last = x.off + x.del
	}
	buf.Write(src[last:])
	if r.timeUsed {
		fmt.Fprintf(&buf, "\nvar _ = %s.Nanosecond\n", r.time)
	}
	return buf.Bytes(), true, nil
}

func hasDirective(doc *ast.CommentGroup) bool {
	if doc == nil {
		return false
	}
	for _, c := range doc.List {
		if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") {
			return true
		}
	}
	return false
}

func recvName(e ast.Expr) string {
	switch t := e.(type) {
	case *ast.StarExpr:
		return recvName(t.X)
	case *ast.Ident:
		return t.Name
	case *ast.IndexExpr:
		return recvName(t.X)
	}
	return "?"
}

// rangeMap rewrites the head of `for k, v := range m {`. The loop variables
// keep being shared by all iterations, or not, as the language version says.
func (r *rw) rangeMap(x *ast.RangeStmt) {
	name := func(e ast.Expr) string {
		if id, ok := e.(*ast.Ident); ok {
			return id.Name
		}
		return "_"
	}
	k, v := name(x.Key), name(x.Value)
	arg := func(n string) string {
		if n == "_" {
			return "nil"
		}
		return "&" + n
	}
	r.usedRT, r.generics = true, true
	it := fmt.Sprintf("it%d_", r.off(x.For))
	from := r.off(x.For) + len("for")
	r.add(from, r.off(x.X.Pos())-from, fmt.Sprintf(" %s, %s, %s := simrt_.Iter(", it, k, v))
	r.add(r.off(x.X.End()), 0, fmt.Sprintf("); %s.Next(%s, %s); ", it, arg(k), arg(v)))
}

func (r *rw) stmts(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		r.yield(s.Pos())
	}
}

func (r *rw) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// the body of a switch/select only holds clauses
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			r.stmts(x.List)
		case *ast.CaseClause:
			r.stmts(x.Body)
		case *ast.CommClause:
			if x.Comm != nil {
				r.skip[x.Comm] = true
				// the receive inside the comm statement stays native
				ast.Inspect(x.Comm, func(m ast.Node) bool {
					if m != nil {
						r.skip[m] = true
					}
					return true
				})
			}
			r.stmts(x.Body)
		case *ast.ForStmt:
			if x.Body != nil && len(x.Body.List) == 0 {
				r.yield(x.Body.Rbrace)
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && r.time != "" && r.time != "_" && r.time != "." && id.Name == r.time && id.Obj == nil {
				switch x.Sel.Name {
				case "Now", "Since", "Until", "Sleep":
					r.usedRT, r.timeUsed = true, true
					r.add(r.off(x.Pos()), r.off(x.End())-r.off(x.Pos()), "simrt_."+x.Sel.Name)
				}
			}
		case *ast.RangeStmt:
			if r.maps[r.off(x.For)] && (x.Key == nil || x.Tok == token.DEFINE) {
				r.rangeMap(x)
			}
			if x.Body != nil && len(x.Body.List) == 0 {
				r.yield(x.Body.Rbrace)
			}
		case *ast.SendStmt:
			if !r.skip[x] {
				// ch <- v  =>  simrt_.Send(ch, v)
				r.usedRT, r.generics = true, true
				r.add(r.off(x.Pos()), 0, "simrt_.Send(")
				r.add(r.off(x.Arrow), 2, ",")
				r.add(r.off(x.End()), 0, ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 && !r.skip[x] {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.skip[u] = true
					r.usedRT, r.generics = true, true
					r.add(r.off(u.OpPos), 2, "simrt_.Recv2(")
					r.add(r.off(u.End()), 0, ")")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !r.skip[x] {
				r.usedRT, r.generics = true, true
				r.add(r.off(x.OpPos), 2, "simrt_.Recv(")
				r.add(r.off(x.End()), 0, ")")
			}
		case *ast.GoStmt:
			r.usedRT = true
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				// go func(){...}()  =>  simrt_.Go(func(){...})
				r.add(r.off(x.Pos()), len("go"), "simrt_.Go(")
				r.add(r.off(fl.End()), r.off(x.End())-r.off(fl.End()), ")")
			} else {
				// go f(a, b)  =>  defer-style argument evaluation through reflection
				r.add(r.off(x.Pos()), len("go"), "simrt_.GoCall(")
				r.add(r.off(x.Call.Lparen), 1, func() string {
					if len(x.Call.Args) == 0 {
						return ""
					}
					return ","
				}())
			}
		}
		return true
	})
}
