// Command mutate writes single-change variants of the non-test sources of a
// repository: it prints "N" candidate mutations as patches of whole files.
//
//	mutate -repo DIR -list            lists all candidates
//	mutate -repo DIR -apply N         applies candidate N to DIR
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type mut struct {
	file     string
	line     int
	from, to int
	text     string
	what     string
}

func main() {
	repo := flag.String("repo", "", "")
	list := flag.Bool("list", false, "")
	apply := flag.Int("apply", -1, "")
	flag.Parse()
	var files []string
	_ = filepath.Walk(*repo, func(p string, i os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.Contains(p, "/.git/") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	var muts []mut
	for _, f := range files {
		muts = append(muts, scan(f)...)
	}
	if *list {
		for i, m := range muts {
			rel, _ := filepath.Rel(*repo, m.file)
			fmt.Printf("%d\t%s\t%d\t%s\n", i, rel, m.line, m.what)
		}
		return
	}
	m := muts[*apply]
	src, _ := os.ReadFile(m.file)
	out := string(src[:m.from]) + m.text + string(src[m.to:])
	if err := os.WriteFile(m.file, []byte(out), 0o644); err != nil {
		panic(err)
	}
}

func scan(file string) (muts []mut) {
	fset := token.NewFileSet()
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(at token.Pos, from, to int, repl, what string) {
		muts = append(muts, mut{file, fset.Position(at).Line, from, to, repl, what})
	}
	ops := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
	}
	var stmts func(list []ast.Stmt)
	stmts = func(list []ast.Stmt) {
		simple := func(s ast.Stmt) bool {
			switch s.(type) {
			case *ast.AssignStmt, *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.DeferStmt:
				return true
			}
			return false
		}
		for i, s := range list {
			if i > 0 && simple(s) && simple(list[i-1]) {
				p := list[i-1]
				add(s.Pos(), off(p.Pos()), off(s.End()), text(s)+"; "+text(p), "order: "+strings.ReplaceAll(text(p)+" <> "+text(s), "\n", " "))
			}
			switch s := s.(type) {
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s.Pos(), off(s.Pos()), off(s.End()), "{}", "drop: "+text(s))
				}
			case *ast.IncDecStmt:
				add(s.Pos(), off(s.Pos()), off(s.End()), "{}", "drop: "+text(s))
			case *ast.ExprStmt:
				if c, ok := s.X.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
						continue
					}
				}
				add(s.Pos(), off(s.Pos()), off(s.End()), "{}", "drop: "+text(s))
			case *ast.IfStmt:
				pre := ""
				if s.Init != nil {
					pre = "init "
				}
				{
					add(s.Pos(), off(s.Cond.Pos()), off(s.Cond.End()), "false && ("+text(s.Cond)+")", pre+"never: "+text(s.Cond))
					add(s.Pos(), off(s.Cond.Pos()), off(s.Cond.End()), "true || ("+text(s.Cond)+")", pre+"always: "+text(s.Cond))
				}
			case *ast.DeferStmt:
				add(s.Pos(), off(s.Pos()), off(s.End()), "{}", "drop: "+text(s))
			case *ast.ReturnStmt:
				if n := len(s.Results); n > 0 {
					if id, ok := s.Results[n-1].(*ast.Ident); ok && id.Name != "nil" && strings.Contains(strings.ToLower(id.Name), "err") {
						add(s.Pos(), off(id.Pos()), off(id.End()), "nil", "noerr: "+text(s))
					}
				}
			case *ast.BranchStmt:
				if s.Tok == token.CONTINUE || s.Tok == token.BREAK {
					other := "break"
					if s.Tok == token.BREAK {
						other = "continue"
					}
					add(s.Pos(), off(s.Pos()), off(s.Pos())+len(s.Tok.String()), other, "swap: "+text(s))
				}
			}
		}
	}
	inConst := 0
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
			_ = inConst
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CallExpr:
			if len(n.Args) == 1 {
				arg := text(n.Args[0])
				for _, narrow := range map[string][]string{"uint16": {"uint8"}, "uint32": {"uint8", "uint16"}, "uint64": {"uint16", "uint32"}, "int": {"uint8", "int8", "uint16", "int16"}, "int32": {"uint16"}, "rune": {"uint16"}}[text(n.Fun)] {
					add(n.Pos(), off(n.Args[0].Pos()), off(n.Args[0].End()), narrow+"("+arg+")", "narrow "+narrow+": "+text(n))
				}
				if text(n.Fun) == "slices.Clone" {
					add(n.Pos(), off(n.Pos()), off(n.End()), arg, "noclone: "+text(n))
				}
			}
			for i := 1; i < len(n.Args); i++ {
				a, b := n.Args[i-1], n.Args[i]
				add(n.Pos(), off(a.Pos()), off(b.End()), text(b)+", "+text(a), "args: "+strings.ReplaceAll(text(n), "\n", " "))
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				add(n.Pos(), off(n.Low.Pos()), off(n.Low.End()), "1 + "+text(n.Low), "slice low: "+text(n))
			}
			if n.High != nil {
				add(n.Pos(), off(n.High.Pos()), off(n.High.End()), text(n.High)+" - 1", "slice high: "+text(n))
			}
		case *ast.BinaryExpr:
			for _, o := range ops[n.Op] {
				add(n.OpPos, off(n.OpPos), off(n.OpPos)+len(n.Op.String()), o, n.Op.String()+" -> "+o+": "+text(n))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				add(n.Pos(), off(n.Pos()), off(n.End()), "("+n.Value+" + 1)", n.Value+" + 1")
				if n.Value != "0" {
					add(n.Pos(), off(n.Pos()), off(n.End()), "("+n.Value+" - 1)", n.Value+" - 1")
				}
			}
		}
		return true
	})
	return muts
}
