// mutate FILE            lists the mutants of a Go file
// mutate FILE N          prints the file with mutant N applied
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var es []edit
	add := func(n ast.Node, repl, what string) {
		es = append(es, edit{off(n.Pos()), off(n.End()), repl, what})
	}
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok == token.VAR || x.Tok == token.CONST
		case *ast.IfStmt:
			c := text(x.Cond)
			if strings.Contains(c, "pdebug.Enabled") {
				return false
			}
			add(x.Cond, "("+c+") && verifFalse", "cond=false "+c)
			add(x.Cond, "("+c+") || verifTrue", "cond=true "+c)
		case *ast.BinaryExpr:
			var ops []string
			switch x.Op {
			case token.EQL:
				ops = []string{"!="}
			case token.NEQ:
				ops = []string{"=="}
			case token.LSS:
				ops = []string{"<=", ">"}
			case token.LEQ:
				ops = []string{"<"}
			case token.GTR:
				ops = []string{">=", "<"}
			case token.GEQ:
				ops = []string{">"}
			case token.LAND:
				ops = []string{"||"}
			case token.LOR:
				ops = []string{"&&"}
			case token.ADD:
				ops = []string{"-"}
			case token.SUB:
				ops = []string{"+"}
			}
			for _, o := range ops {
				es = append(es, edit{off(x.OpPos), off(x.OpPos) + len(x.Op.String()), o, text(x) + " -> " + o})
			}
		case *ast.ExprStmt:
			add(x, "{}", "drop "+text(x))
		case *ast.DeferStmt:
			add(x, "{}", "drop "+text(x))
		case *ast.IncDecStmt:
			add(x, "{}", "drop "+text(x))
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN {
				var l []string
				for _, r := range x.Rhs {
					l = append(l, text(r))
				}
				us := strings.TrimSuffix(strings.Repeat("_, ", len(x.Lhs)), ", ")
				if len(x.Lhs) == len(x.Rhs) || len(x.Rhs) == 1 {
					add(x, us+" = "+strings.Join(l, ", "), "no assignment "+text(x))
				}
			}
		case *ast.BranchStmt:
			if x.Label == nil {
				switch x.Tok {
				case token.CONTINUE:
					add(x, "break", "continue -> break")
					add(x, "{}", "drop continue")
				case token.BREAK:
					add(x, "{}", "drop break")
				}
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				n, err := strconv.Atoi(x.Value)
				if err == nil {
					add(x, strconv.Itoa(n+1), x.Value+" -> +1")
					if n > 0 {
						add(x, strconv.Itoa(n-1), x.Value+" -> -1")
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x, "false", "true -> false")
			} else if x.Name == "false" {
				add(x, "true", "false -> true")
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				s := text(r)
				if s == "err" || strings.HasPrefix(s, "errors.") || strings.HasPrefix(s, "fmt.Errorf") {
					add(r, "nil", "return nil for "+s)
				}
			}
		case *ast.CaseClause:
			for i, e := range x.List {
				if len(x.List) > 1 {
					from, to := off(e.Pos()), off(e.End())
					if i+1 < len(x.List) {
						to = off(x.List[i+1].Pos())
					} else {
						from = off(x.List[i-1].End())
					}
					es = append(es, edit{from, to, "", "drop case " + text(e)})
				}
			}
			if len(x.Body) > 0 {
				from, to := off(x.Body[0].Pos()), off(x.Body[len(x.Body)-1].End())
				es = append(es, edit{from, to, "", "empty case body at line " + strconv.Itoa(fs.Position(x.Pos()).Line)})
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, text(x.X), "drop ! of "+text(x))
			}
			if x.Op == token.SUB {
				add(x, text(x.X), "drop - of "+text(x))
			}
		}
		return true
	}
	ast.Inspect(f, walk)
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	if len(os.Args) < 3 {
		for i, e := range es {
			line := 1 + strings.Count(string(src[:e.from]), "\n")
			w := strings.Join(strings.Fields(e.what), " ")
			if len(w) > 110 {
				w = w[:110] + "..."
			}
			fmt.Printf("%d\t%d\t%s\n", i, line, w)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	e := es[n]
	out := string(src[:e.from]) + e.text + string(src[e.to:])
	if strings.Contains(e.text, "verifFalse") {
		out = strings.Replace(out, "verifFalse", "len(\"\") > 0", 1)
	}
	if strings.Contains(e.text, "verifTrue") {
		out = strings.Replace(out, "verifTrue", "len(\"\") == 0", 1)
	}
	fmt.Print(out)
}
