// Command mutate lists simple changes to Go files as JSON lines: {"file","from","to","new","what"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		seen := map[string]bool{}
		put := func(from, to token.Pos, s, what string) {
			m := mut{name, off(from), off(to), s, what, fset.Position(from).Line}
			k := fmt.Sprint(m)
			if !seen[k] {
				seen[k] = true
				enc.Encode(m)
			}
		}
		isLog := func(s ast.Stmt) bool {
			t := txt(s)
			return len(t) > 4 && (t[:4] == "log." || len(t) > 10 && t[:10] == "defer log.")
		}
		list := func(ss []ast.Stmt) {
			for i, s := range ss {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
					if !isLog(s) {
						put(s.Pos(), s.End(), "", "delete "+first(txt(s)))
					}
				case *ast.AssignStmt:
					if s.Tok == token.ASSIGN {
						put(s.Pos(), s.End(), "", "delete "+first(txt(s)))
					}
				}
				if d, ok := s.(*ast.DeferStmt); ok && !isLog(s) {
					put(d.Pos(), d.Call.Pos(), "", "no defer: "+first(txt(s)))
				}
				if g, ok := s.(*ast.GoStmt); ok {
					put(g.Pos(), g.Call.Pos(), "", "no go: "+first(txt(s)))
				}
				if e, ok := s.(*ast.ExprStmt); ok && !isLog(s) {
					if _, ok := e.X.(*ast.CallExpr); ok {
						put(s.Pos(), s.End(), "go "+txt(s), "go "+first(txt(s)))
						put(s.Pos(), s.End(), "defer "+txt(s), "defer "+first(txt(s)))
					}
				}
				if i+1 < len(ss) && !isLog(s) && !isLog(ss[i+1]) {
					put(s.Pos(), ss[i+1].End(), txt(ss[i+1])+"\n"+txt(s), "swap "+first(txt(s))+" / "+first(txt(ss[i+1])))
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
				// lock pairs
				for i, s := range n.List {
					if i+1 < len(n.List) {
						a, b := txt(s), txt(n.List[i+1])
						if len(a) > 7 && a[len(a)-7:] == ".Lock()" && len(b) > 6 && b[:6] == "defer " {
							put(s.Pos(), n.List[i+1].End(), "", "no lock "+a)
						}
					}
				}
			case *ast.CaseClause:
				list(n.Body)
				put(n.Pos(), n.End(), "", "drop case "+first(txt(n)))
			case *ast.CommClause:
				list(n.Body)
				put(n.Pos(), n.End(), "", "drop comm "+first(txt(n)))
			case *ast.IfStmt:
				put(n.Cond.Pos(), n.Cond.End(), "!("+txt(n.Cond)+")", "negate "+txt(n.Cond))
				put(n.Cond.Pos(), n.Cond.End(), "("+txt(n.Cond)+") && false", "never "+txt(n.Cond))
				put(n.Cond.Pos(), n.Cond.End(), "("+txt(n.Cond)+") || true", "always "+txt(n.Cond))
			case *ast.BinaryExpr:
				for _, o := range map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}}[n.Op] {
					put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, n.Op.String()+" -> "+o+" in "+first(txt(n)))
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					put(n.Pos(), n.End(), txt(n.X), "only "+txt(n.X))
					put(n.Pos(), n.End(), txt(n.Y), "only "+txt(n.Y))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.Atoi(n.Value); err == nil {
						put(n.Pos(), n.End(), strconv.Itoa(v+1), n.Value+" -> "+strconv.Itoa(v+1))
						if v > 0 {
							put(n.Pos(), n.End(), strconv.Itoa(v-1), n.Value+" -> "+strconv.Itoa(v-1))
						}
						if v > 1 {
							put(n.Pos(), n.End(), "0", n.Value+" -> 0")
						}
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					switch txt(r) {
					case "err", "sendErr", "ErrServerClosed", "ErrSessionClosed", "ErrMalformedMessage":
						put(r.Pos(), r.End(), "nil", "return nil for "+txt(r))
					case "nil":
					case "true":
						put(r.Pos(), r.End(), "false", "return false")
					case "false":
						put(r.Pos(), r.End(), "true", "return true")
					}
				}
			case *ast.BranchStmt:
				switch n.Tok {
				case token.CONTINUE:
					put(n.Pos(), n.End(), "break", "break for continue")
				case token.BREAK:
					put(n.Pos(), n.End(), "continue", "continue for break")
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "make" && len(n.Args) == 2 {
					put(n.Args[0].End(), n.Args[1].End(), "", "no capacity: "+txt(n))
				}
			}
			return true
		})
	}
}

func first(s string) string {
	for i, c := range s {
		if c == '\n' || i > 70 {
			return s[:i] + "..."
		}
	}
	return s
}
