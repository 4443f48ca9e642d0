// mutate lists mechanical mutants of Go files, as JSON lines: file, byte range,
// replacement, enclosing function and description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File, Func, Desc, New string
	From, To, Line        int
}

var (
	fset = token.NewFileSet()
	src  []byte
	file string
	out  = json.NewEncoder(os.Stdout)
	fn   string
)

func off(p token.Pos) int    { return fset.Position(p).Offset }
func text(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
func short(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}
func emit(n ast.Node, repl, desc string) {
	out.Encode(mutant{file, fn, desc, repl, off(n.Pos()), off(n.End()), fset.Position(n.Pos()).Line})
}

func isLog(n ast.Node) bool {
	t := text(n)
	return strings.Contains(strings.SplitN(t, "(", 2)[0], "ogger.")
}

var swap = map[token.Token]string{
	token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">",
	token.ADD: "-", token.SUB: "+",
}

func cond(e ast.Expr) {
	if b, ok := e.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
		emit(b, text(b.X), "keep only left of "+short(text(b)))
		emit(b, text(b.Y), "keep only right of "+short(text(b)))
	}
	emit(e, "!("+text(e)+")", "negate "+short(text(e)))
}

func visit(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.ImportSpec:
		return false
	case *ast.CallExpr:
		if isLog(x) {
			return false
		}
		if len(x.Args) >= 2 {
			for i := 0; i+1 < len(x.Args); i++ {
				emit(&span{x.Args[i].Pos(), x.Args[i+1].End()}, text(x.Args[i+1])+", "+text(x.Args[i]), "swap arguments "+short(text(x)))
			}
		}
	case *ast.ExprStmt:
		if isLog(x) {
			return false
		}
		emit(x, "", "delete "+short(text(x)))
	case *ast.AssignStmt:
		if x.Tok == token.ASSIGN {
			r := ""
			for _, l := range x.Lhs {
				r += "_ = " + text(l) + "; "
			}
			emit(x, r, "delete "+short(text(x)))
		}
	case *ast.IfStmt:
		cond(x.Cond)
		if x.Else == nil {
			emit(x.Body, "{}", "empty body of if "+short(text(x.Cond)))
			emit(x.Cond, "("+text(x.Cond)+") && false", "never: if "+short(text(x.Cond)))
		} else {
			emit(x.Cond, "("+text(x.Cond)+") || true", "always: if "+short(text(x.Cond)))
		}
	case *ast.BinaryExpr:
		if r, ok := swap[x.Op]; ok {
			op := &span{x.OpPos, x.OpPos + token.Pos(len(x.Op.String()))}
			if x.Op == token.LSS || x.Op == token.GTR || x.Op == token.LEQ || x.Op == token.GEQ || x.Op == token.ADD || x.Op == token.SUB || fnTop != nil {
				emit(op, r, fmt.Sprintf("%s to %s in %s", x.Op, r, short(text(x))))
			}
		}
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			emit(x, "("+x.Value+"+1)", "+1: "+x.Value)
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err == nil && !strings.Contains(s, "json:") {
				emit(x, strconv.Quote(s+"x"), "change "+short(x.Value))
			}
		}
	case *ast.Ident:
		if x.Name == "true" {
			emit(x, "false", "true to false")
		} else if x.Name == "false" {
			emit(x, "true", "false to true")
		}
	case *ast.BranchStmt:
		if x.Tok == token.BREAK {
			emit(x, "", "delete break")
		}
	case *ast.CaseClause:
		if len(x.List) > 0 && len(x.Body) > 0 {
			emit(&span{x.Body[0].Pos(), x.Body[len(x.Body)-1].End()}, "", "empty case "+short(text(x.List[0])))
		}
	case *ast.KeyValueExpr:
		emit(x, "", "drop "+short(text(x)))
	case *ast.ReturnStmt:
		if len(x.Results) == 2 && text(x.Results[0]) == "nil" {
			emit(x, "return nil, nil", "return nil, nil for "+short(text(x)))
		}
	case *ast.IncDecStmt:
		emit(x, "", "delete "+text(x))
	case *ast.SelectorExpr:
		// a sibling constant: the error types
		if p, ok := x.X.(*ast.Ident); ok && p.Name == "oer" && strings.HasPrefix(x.Sel.Name, "Err") {
			o := "ErrInvalidRequest"
			if x.Sel.Name == o {
				o = "ErrServerError"
			}
			emit(x, "oer."+o, "instead of "+x.Sel.Name)
		}
		if p, ok := x.X.(*ast.Ident); ok && p.Name == "bridge" && strings.HasPrefix(x.Sel.Name, "Err") {
			o := "ErrFailed"
			if x.Sel.Name == o {
				o = "ErrServerError"
			}
			emit(x, "bridge."+o, "instead of "+x.Sel.Name)
		}
	}
	return true
}

var fnTop *int

type span struct{ a, b token.Pos }

func (s *span) Pos() token.Pos { return s.a }
func (s *span) End() token.Pos { return s.b }

func main() {
	one := 1
	fnTop = &one
	for _, f := range os.Args[1:] {
		file = f
		src, _ = os.ReadFile(f)
		a, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
				if x.Body != nil {
					ast.Inspect(x.Body, visit)
				}
			case *ast.GenDecl:
				fn = "-"
				if x.Tok == token.CONST || x.Tok == token.VAR {
					ast.Inspect(x, visit)
				}
			}
		}
	}
}
