// mutate lists small changes of Go source files and applies one of them.
//
//	mutate list FILE...         one line per mutant: N FILE:LINE OP OLD => NEW
//	mutate apply N OUT FILE...  writes the file of mutant N, changed, under OUT
//
// It serves to look for behaviour that no check notices; no check uses it.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	file     string
	lo, hi   int
	line     int
	op, repl string
	old      string
}

func main() {
	files := os.Args[2:]
	n := -1
	out := ""
	if os.Args[1] == "apply" {
		n, _ = strconv.Atoi(os.Args[2])
		out = os.Args[3]
		files = os.Args[4:]
	}
	var all []mut
	src := map[string][]byte{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		src[f] = b
		all = append(all, scan(f, b)...)
	}
	if n < 0 {
		for i, m := range all {
			fmt.Printf("%d %s:%d %s %s => %s\n", i, m.file, m.line, m.op, short(m.old), short(m.repl))
		}
		return
	}
	m := all[n]
	b := src[m.file]
	r := string(b[:m.lo]) + m.repl + string(b[m.hi:])
	p := filepath.Join(out, m.file)
	if err := os.WriteFile(p, []byte(r), 0644); err != nil {
		panic(err)
	}
	fmt.Printf("%s:%d %s %s => %s\n", m.file, m.line, m.op, short(m.old), short(m.repl))
}

func short(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 70 {
		s = s[:70] + "…"
	}
	return s
}

func scan(f string, b []byte) []mut {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, f, b, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var l []mut
	skip := map[string]bool{}
	for _, s := range strings.Split(os.Getenv("SKIP"), ",") {
		skip[s] = true
	}
	at := func(n ast.Node) (int, int) { return fs.Position(n.Pos()).Offset, fs.Position(n.End()).Offset }
	add := func(op string, n ast.Node, repl string) {
		lo, hi := at(n)
		l = append(l, mut{f, lo, hi, fs.Position(n.Pos()).Line, op, repl, string(b[lo:hi])})
	}
	text := func(n ast.Node) string { lo, hi := at(n); return string(b[lo:hi]) }
	quiet := func(s string) bool {
		return strings.HasPrefix(s, "fmt.Print") || strings.HasPrefix(s, "util.CheckErr") || strings.HasPrefix(s, "log.")
	}
	for _, d := range af.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		name := fd.Name.Name
		if skip[fmt.Sprintf("%s:%d", f, fs.Position(fd.Name.Pos()).Line)] {
			continue
		}
		_ = name
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ExprStmt:
				if quiet(text(x)) {
					return false
				}
				add("del", x, "")
			case *ast.IncDecStmt:
				add("del", x, "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					s := ""
					for _, r := range x.Rhs {
						s += "_ = " + text(r) + ";"
					}
					if len(x.Lhs) == len(x.Rhs) {
						add("noassign", x, s)
					} else {
						add("del", x, "")
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					add("noreturn", x, "")
				} else if len(x.Results) == 1 {
					switch text(x.Results[0]) {
					case "true":
						add("ret", x, "return false")
					case "false":
						add("ret", x, "return true")
					case "nil":
					default:
						if strings.HasPrefix(text(x.Results[0]), "errors.New") {
							add("ret", x, "return nil")
						}
					}
				}
			case *ast.BranchStmt:
				add("del", x, "")
			case *ast.IfStmt:
				c := text(x.Cond)
				if strings.Contains(c, "err != nil") && len(c) < 12 {
					break
				}
				add("iffalse", x.Cond, "false && ("+c+")")
				add("iftrue", x.Cond, "true || ("+c+")")
			case *ast.BinaryExpr:
				swap := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.ADD: "-", token.SUB: "+", token.LAND: "||", token.LOR: "&&", token.MUL: "+"}
				if r, ok := swap[x.Op]; ok {
					if (x.Op == token.EQL || x.Op == token.NEQ) && text(x.Y) == "nil" {
						break
					}
					lo := fs.Position(x.OpPos).Offset
					l = append(l, mut{f, lo, lo + len(x.Op.String()), fs.Position(x.OpPos).Line, "op", r, text(x)})
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					add("int", x, "("+x.Value+"+1)")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add("not", x, text(x.X))
				}
			case *ast.CallExpr:
				if se, ok := x.Fun.(*ast.SelectorExpr); ok {
					swap := map[string]string{"Add": "Sub", "Sub": "Add", "Mul": "Add", "Div": "Add"}
					if r, ok := swap[se.Sel.Name]; ok && len(x.Args) == 2 {
						add("call", se.Sel, r)
					}
				}
			case *ast.GoStmt:
				add("nogo", x, text(x.Call))
			}
			return true
		})
	}
	return l
}
