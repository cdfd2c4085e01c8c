// Command instrument rewrites the current non-test sources of the system
// under test into a scratch directory, together with a go build overlay that
// substitutes them. The rewriting only adds simulator seams:
//
//   - a scheduling/step-budget point before every statement and loop body,
//   - read-yield-write splits of compound assignments to (possibly shared) memory,
//   - the clock, entropy, goroutine and map iteration order seams,
//   - simulated versions of the sync types,
//   - registration of the package level variables (process restarts).
//
// All edits are insertions within existing lines, so line numbers don't change.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const seamName = "seamVerif"
const seamPath = "verif.local/sim/seam"

var level string

type edit struct {
	off, end int
	text     string
	seq      int
}

type site struct {
	File string `json:"f"`
	Line int    `json:"l"`
	Func string `json:"n"`
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
}

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instrument:"}, args...)...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "system under test")
	out := flag.String("out", "", "scratch directory")
	flag.StringVar(&level, "level", "full", "full, nofile, nosplit or plain")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	var pkgs []listPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p listPkg
		err := dec.Decode(&p)
		if err == io.EOF {
			break
		}
		if err != nil {
			fatal(err)
		}
		pkgs = append(pkgs, p)
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})

	overlay := map[string]string{}
	var sites = []site{{}}
	for _, p := range pkgs {
		if p.Standard || p.Module == nil {
			continue
		}
		var files []*ast.File
		var names []string
		for _, name := range p.GoFiles {
			full := filepath.Join(p.Dir, name)
			f, err := parser.ParseFile(fset, full, nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fatal(err)
			}
			files = append(files, f)
			names = append(names, full)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: ""}
		pkg, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatal(err)
		}
		for i, f := range files {
			src, err := os.ReadFile(names[i])
			if err != nil {
				fatal(err)
			}
			w := &rewriter{fset: fset, file: f, src: src, info: info, pkg: pkg, sites: &sites, name: strings.TrimPrefix(names[i], *repo+"/")}
			res := w.run()
			dst := filepath.Join(*out, "src", strings.ReplaceAll(w.name, "/", "__"))
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				fatal(err)
			}
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fatal(err)
			}
			overlay[names[i]] = dst
		}
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		fatal(err)
	}
	js, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), js, 0o644); err != nil {
		fatal(err)
	}
}

type rewriter struct {
	fset  *token.FileSet
	file  *ast.File
	src   []byte
	info  *types.Info
	pkg   *types.Package
	sites *[]site
	name  string
	edits []edit
	fn    string
	used  bool
	tmp   int
}

func (w *rewriter) off(p token.Pos) int { return w.fset.Position(p).Offset }
func (w *rewriter) text(n ast.Node) string {
	return string(w.src[w.off(n.Pos()):w.off(n.End())])
}
func (w *rewriter) insert(p token.Pos, text string) {
	w.edits = append(w.edits, edit{w.off(p), w.off(p), text, len(w.edits)})
}
func (w *rewriter) replace(from, to token.Pos, text string) {
	w.edits = append(w.edits, edit{w.off(from), w.off(to), text, len(w.edits)})
}
func (w *rewriter) yield(p token.Pos) string {
	w.used = true
	*w.sites = append(*w.sites, site{w.name, w.fset.Position(p).Line, w.fn})
	return seamName + ".Yield(" + strconv.Itoa(len(*w.sites)-1) + ")"
}

func (w *rewriter) run() []byte {
	for _, imp := range w.file.Imports {
		if imp.Path.Value == `"sync"` {
			w.replace(imp.Path.Pos(), imp.Path.End(), `"verif.local/sim/simsync"`)
		}
	}
	var tail strings.Builder
	for _, d := range w.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			w.fn = d.Name.Name
			if d.Recv != nil && len(d.Recv.List) == 1 {
				w.fn = strings.Trim(w.text(d.Recv.List[0].Type), "*") + "." + w.fn
			}
			if d.Body != nil {
				w.block(d.Body)
			}
		case *ast.GenDecl:
			w.fn = "init"
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							tail.WriteString("; func init() { " + seamName + ".RegisterVar(&" + n.Name + ") }")
							w.used = true
						}
					}
				}
				w.walk(d)
			}
		}
	}
	// import anchors
	for _, imp := range w.file.Imports {
		name := ""
		if imp.Name != nil {
			name = imp.Name.Name
			if name == "_" || name == "." {
				continue
			}
		}
		switch imp.Path.Value {
		case `"time"`:
			if name == "" {
				name = "time"
			}
			tail.WriteString("; var _ = " + name + ".Now")
		case `"maps"`:
			if name == "" {
				name = "maps"
			}
			tail.WriteString("; var _ = " + name + ".Keys[map[int]int]")
		case `"crypto/rand"`:
			if name == "" {
				name = "rand"
			}
			tail.WriteString("; var _ = " + name + ".Read")
		case `"os"`:
			if name == "" {
				name = "os"
			}
			tail.WriteString("; var _ = " + name + ".Open")
		}
	}
	if w.used {
		w.insert(w.file.Name.End(), "; import "+seamName+` "`+seamPath+`"`)
	}
	sort.SliceStable(w.edits, func(i, j int) bool {
		if w.edits[i].off != w.edits[j].off {
			return w.edits[i].off < w.edits[j].off
		}
		return w.edits[i].seq < w.edits[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range w.edits {
		if e.off < pos {
			fatal("overlapping edits in", w.name, "at", e.off, e.text)
		}
		out.Write(w.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(w.src[pos:])
	if tail.Len() > 0 {
		out.WriteString("\n" + strings.TrimPrefix(tail.String(), "; ") + "\n")
	}
	return out.Bytes()
}

func (w *rewriter) block(b *ast.BlockStmt) {
	w.list(b.List)
}

func (w *rewriter) list(list []ast.Stmt) {
	for _, s := range list {
		y := w.yield(s.Pos())
		if w.shares(s) {
			y = strings.Replace(y, ".Yield(", ".YieldHot(", 1)
		}
		w.insert(s.Pos(), y+"; ")
		w.stmt(s)
	}
}

// Whether a statement (not the blocks within it) refers to a package variable of
// the system under test that is not just an error.
func (w *rewriter) shares(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			v, _ := w.info.Uses[n].(*types.Var)
			if v != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() && w.local(v.Pkg().Path()) && !types.IsInterface(v.Type()) {
				found = true
			}
		}
		return true
	})
	return found
}

func (w *rewriter) local(path string) bool {
	root := strings.Join(strings.SplitN(w.pkg.Path(), "/", 4)[:min(3, strings.Count(w.pkg.Path(), "/")+1)], "/")
	return path == root || strings.HasPrefix(path, root+"/")
}

// Instruments a statement that is a direct element of a statement list.
func (w *rewriter) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if w.splitAssign(s) {
			return
		}
	case *ast.IncDecStmt:
		if w.splittable(s.X) {
			w.tmp++
			t := fmt.Sprintf("seamTmp%d", w.tmp)
			x := w.text(s.X)
			w.replace(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s; %s; %s = %s %s 1 }", t, x, w.yield(s.Pos()), x, t, s.Tok.String()[:1]))
			return
		}
	case *ast.LabeledStmt:
		w.stmt(s.Stmt)
		return
	}
	w.walk(s)
}

// Whether a location can be shared memory, with side-effect free operands.
func (w *rewriter) splittable(x ast.Expr) bool {
	if level != "full" && level != "nofile" {
		return false
	}
	switch e := x.(type) {
	case *ast.Ident:
		obj, _ := w.info.Uses[e].(*types.Var)
		return obj != nil && obj.Parent() == w.pkg.Scope()
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return !w.hasEffects(x)
	case *ast.ParenExpr:
		return w.splittable(e.X)
	}
	return false
}

func (w *rewriter) hasEffects(x ast.Expr) bool {
	found := false
	ast.Inspect(x, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv, ok := w.info.Types[n.Fun]; !ok || !(tv.IsType() || tv.IsBuiltin()) {
				found = true
			}
		case *ast.FuncLit:
			found = true
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func (w *rewriter) splitAssign(s *ast.AssignStmt) bool {
	if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !w.splittable(s.Lhs[0]) || w.hasEffects(s.Rhs[0]) {
		return false
	}
	l, r := w.text(s.Lhs[0]), w.text(s.Rhs[0])
	if strings.Contains(l, "\n") || strings.Contains(r, "\n") {
		return false
	}
	w.tmp++
	t := fmt.Sprintf("seamTmp%d", w.tmp)
	switch s.Tok {
	case token.DEFINE:
		return false
	case token.ASSIGN:
		lt, rt := w.info.Types[s.Lhs[0]], w.info.Types[s.Rhs[0]]
		if lt.Type == nil || rt.Type == nil || rt.Value != nil || rt.IsNil() || !types.Identical(lt.Type, rt.Type) {
			return false
		}
		switch s.Rhs[0].(type) {
		case *ast.CompositeLit, *ast.Ident, *ast.BasicLit:
			return false
		}
		w.replace(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s; %s; %s = %s }", t, r, w.yield(s.Pos()), l, t))
	default: // op=
		op := strings.TrimSuffix(s.Tok.String(), "=")
		w.replace(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s; %s; %s = %s %s (%s) }", t, l, w.yield(s.Pos()), l, t, op, r))
	}
	return true
}

// Generic walk: finds nested blocks, function literals and seams.
func (w *rewriter) walk(n ast.Node) {
	if n == nil {
		return
	}
	switch n := n.(type) {
	case *ast.BlockStmt:
		w.block(n)
		return
	case *ast.CaseClause:
		for _, e := range n.List {
			w.walk(e)
		}
		w.list(n.Body)
		return
	case *ast.CommClause:
		if n.Comm != nil {
			w.walk(n.Comm)
		}
		w.list(n.Body)
		return
	case *ast.SwitchStmt:
		if n.Init != nil {
			w.walk(n.Init)
		}
		if n.Tag != nil {
			w.walk(n.Tag)
		}
		for _, c := range n.Body.List {
			w.walk(c)
		}
		return
	case *ast.TypeSwitchStmt:
		if n.Init != nil {
			w.walk(n.Init)
		}
		w.walk(n.Assign)
		for _, c := range n.Body.List {
			w.walk(c)
		}
		return
	case *ast.SelectStmt:
		for _, c := range n.Body.List {
			w.walk(c)
		}
		return
	case *ast.ForStmt:
		if n.Init != nil {
			w.walk(n.Init)
		}
		if n.Cond != nil {
			w.walk(n.Cond)
		}
		if n.Post != nil {
			w.walk(n.Post)
		}
		w.insert(n.Body.Lbrace+1, " "+w.yield(n.Body.Pos())+";")
		w.block(n.Body)
		return
	case *ast.RangeStmt:
		w.rangeStmt(n)
		return
	case *ast.GoStmt:
		w.used = true
		w.replace(n.Pos(), n.Call.Pos(), seamName+".Go(func() { ")
		w.walk(n.Call)
		w.insert(n.End(), " })")
		return
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if pn, ok := w.info.Uses[id].(*types.PkgName); ok {
				if to := seamFor(pn.Imported().Path(), n.Sel.Name); to != "" {
					w.used = true
					w.replace(n.Pos(), n.End(), seamName+"."+to)
				}
				return
			}
		}
		w.walk(n.X)
		return
	}
	// default: visit direct children
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		w.walk(c)
		return false
	})
}

func seamFor(path, name string) string {
	switch path + "." + name {
	case "time.Now":
		return "Now"
	case "time.Since":
		return "Since"
	case "time.Until":
		return "Until"
	case "maps.Keys":
		return "MapsKeys"
	case "maps.Values":
		return "MapsValues"
	case "maps.All":
		return "MapsAll"
	case "crypto/rand.Read":
		return "RandRead"
	case "crypto/rand.Reader":
		return "RandReader"
	case "crypto/rand.Int":
		return "RandInt"
	case "os.Open", "os.OpenFile", "os.ReadFile", "os.File":
		if level == "full" {
			return map[string]string{"Open": "OpenFile", "OpenFile": "OpenFileFlag", "ReadFile": "ReadFile", "File": "File"}[name]
		}
	}
	return ""
}

func (w *rewriter) rangeStmt(n *ast.RangeStmt) {
	t := w.info.Types[n.X].Type
	_, isMap := t.Underlying().(*types.Map)
	if level == "plain" {
		isMap = false
	}
	blank := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return w.text(e)
	}
	if isMap && n.Key != nil && (n.Tok == token.DEFINE || !w.hasEffects(n.Key) && (n.Value == nil || !w.hasEffects(n.Value))) {
		// each item keeps the map, so that deletions during the loop are seen
		w.used = true
		w.tmp++
		it, key, val, ok := fmt.Sprintf("seamItem%d", w.tmp), blank(n.Key), blank(n.Value), fmt.Sprintf("seamOk%d", w.tmp)
		w.replace(n.Key.Pos(), n.X.Pos(), fmt.Sprintf("_, %s := range %s.MapItems(", it, seamName))
		w.walk(n.X)
		w.insert(n.X.End(), ")")
		body := ""
		if n.Tok == token.DEFINE {
			body = fmt.Sprintf(" %s, %s := %s.M[%s.K]; if !%s { continue };", val, ok, it, it, ok)
			if key != "_" {
				body += fmt.Sprintf(" %s := %s.K; _ = %s;", key, it, key)
			}
			if val != "_" {
				body += " _ = " + val + ";"
			}
		} else {
			v := fmt.Sprintf("seamVal%d", w.tmp)
			body = fmt.Sprintf(" %s, %s := %s.M[%s.K]; if !%s { continue }; %s, %s = %s.K, %s;", v, ok, it, it, ok, key, val, it, v)
		}
		w.insert(n.Body.Lbrace+1, body)
	} else {
		w.walk(n.X)
	}
	w.insert(n.Body.Lbrace+1, " "+w.yield(n.Body.Pos())+";")
	w.block(n.Body)
}
