// mutate lists or applies small syntactic changes to a Go source file.
//
//	mutate list FILE        one line per mutant: index, line, description
//	mutate apply FILE N     prints the file with mutant N applied
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type mutant struct {
	from, to int // byte offsets
	text     string
	desc     string
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"},
	token.GTR: {">=", "<"}, token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
}

func main() {
	file := os.Args[2]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ms []mutant
	add := func(from, to token.Pos, text, desc string) {
		ms = append(ms, mutant{off(from), off(to), text, desc})
	}
	old := func(n ast.Node) string {
		s := string(src[off(n.Pos()):off(n.End())])
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			s = s[:i] + "…"
		}
		if len(s) > 60 {
			s = s[:60] + "…"
		}
		return s
	}
	skip := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.CallExpr:
			if s, ok := n.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "debugf" || s.Sel.Name == "logf" || s.Sel.Name == "Errorf") {
				return false
			}
		case *ast.Field:
			if n.Tag != nil {
				skip[n.Tag] = true
			}
		case *ast.BinaryExpr:
			for _, op := range swaps[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), op, fmt.Sprintf("%s -> %s in %s", n.Op, op, old(n)))
			}
		case *ast.IfStmt:
			c := string(src[off(n.Cond.Pos()):off(n.Cond.End())])
			add(n.Cond.Pos(), n.Cond.End(), "("+c+") && false", "never: if "+old(n.Cond))
			add(n.Cond.Pos(), n.Cond.End(), "("+c+") || true", "always: if "+old(n.Cond))
		case *ast.BlockStmt:
			stmts(n.List, add, old)
		case *ast.CaseClause:
			stmts(n.Body, add, old)
			for i, v := range n.List {
				if len(n.List) > 1 {
					from, to := v.Pos(), v.End()
					if i+1 < len(n.List) {
						to = n.List[i+1].Pos()
					} else {
						from = n.List[i-1].End()
					}
					add(from, to, "", "case without "+old(v))
				}
			}
		case *ast.BasicLit:
			if skip[n] {
				return true
			}
			switch n.Kind {
			case token.INT:
				if v, err := strconv.Atoi(n.Value); err == nil {
					add(n.Pos(), n.End(), strconv.Itoa(v+1), fmt.Sprintf("%d -> %d", v, v+1))
				}
			case token.STRING:
				if n.Value[0] == '`' && strings.Contains(n.Value, "\n") {
					template(n, add)
				} else if v, err := strconv.Unquote(n.Value); err == nil && len(v) < 60 {
					if v == "" {
						add(n.Pos(), n.End(), `"x"`, `"" -> "x"`)
					} else {
						add(n.Pos(), n.End(), strconv.Quote(v+"x"), fmt.Sprintf("%q -> %q", v, v+"x"))
					}
				}
			}
		}
		return true
	})
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].from < ms[j].from })
	switch os.Args[1] {
	case "list":
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, 1+strings.Count(string(src[:m.from]), "\n"), m.desc)
		}
	case "apply":
		i, _ := strconv.Atoi(os.Args[3])
		m := ms[i]
		os.Stdout.WriteString(string(src[:m.from]) + m.text + string(src[m.to:]))
	}
}

func stmts(list []ast.Stmt, add func(a, b token.Pos, text, desc string), old func(ast.Node) string) {
	for _, s := range list {
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
			if e, ok := s.(*ast.ExprStmt); ok {
				if c, ok := e.X.(*ast.CallExpr); ok {
					if sel, ok := c.Fun.(*ast.SelectorExpr); ok && (sel.Sel.Name == "debugf" || sel.Sel.Name == "logf") {
						continue
					}
				}
			}
			add(s.Pos(), s.End(), "_ = 0", "without "+old(s))
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				add(s.Pos(), s.End(), "_ = 0", "without "+old(s))
			}
		}
	}
}

// Lines of the templates of generated code.
func template(n *ast.BasicLit, add func(a, b token.Pos, text, desc string)) {
	pos := n.Pos()
	for _, line := range strings.SplitAfter(n.Value, "\n") {
		t := strings.TrimSpace(line)
		if len(t) > 3 && !strings.Contains(t, "`") {
			if !strings.HasSuffix(t, "{") && !strings.HasPrefix(t, "}") {
				add(pos, pos+token.Pos(len(line)-1), "", "template without "+t)
			}
			for _, ab := range [][2]string{{"==", "!="}, {"!=", "=="}, {" > ", " < "}, {"&&", "||"}} {
				a, b := ab[0], ab[1]
				if i := strings.Index(line, a); i >= 0 {
					add(pos+token.Pos(i), pos+token.Pos(i+len(a)), b, "template "+b+" in "+t)
				}
			}
		}
		pos += token.Pos(len(line))
	}
}
