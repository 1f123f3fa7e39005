// mutgen writes mutants of Go source files: small changes of the kind a slip of the pen makes.
//
//	mutgen -repo /repo -out DIR FILE...    writes DIR/NNNN.go and DIR/list.json
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	N          int
	File, Desc string
	Line       int
}

var (
	repo = flag.String("repo", "/repo", "")
	out  = flag.String("out", "", "")
	list []mutant
)

type edit struct {
	pos, end token.Pos
	text     string
}

func main() {
	flag.Parse()
	os.MkdirAll(*out, 0o755)
	for _, f := range flag.Args() {
		mutate(f)
	}
	b, _ := json.MarshalIndent(list, "", " ")
	os.WriteFile(filepath.Join(*out, "list.json"), b, 0o644)
	fmt.Println(len(list), "mutants")
}

func mutate(file string) {
	src, err := os.ReadFile(filepath.Join(*repo, file))
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	emit := func(desc string, edits ...edit) {
		// edits are given in order of position
		var b bytes.Buffer
		at := 0
		for _, e := range edits {
			b.Write(src[at:off(e.pos)])
			b.WriteString(e.text)
			at = off(e.end)
		}
		b.Write(src[at:])
		res := b.Bytes()
		if _, err := format.Source(res); err != nil {
			return
		}
		m := mutant{N: len(list), File: file, Desc: strings.Join(strings.Fields(desc), " "), Line: fset.Position(edits[0].pos).Line}
		os.WriteFile(filepath.Join(*out, fmt.Sprintf("%04d.go", m.N)), res, 0o644)
		list = append(list, m)
	}
	rep := func(n ast.Node, s string) { emit(text(n)+"  ==>  "+s, edit{n.Pos(), n.End(), s}) }

	inErr := 0
	var walk func(n ast.Node)
	visitList := func(l []ast.Stmt) {
		for i, s := range l {
			switch x := s.(type) {
			case *ast.ExprStmt:
				rep(x, "_ = 0")
			case *ast.IncDecStmt:
				rep(x, "_ = 0")
			case *ast.DeferStmt:
				rep(x, "_ = 0")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					t := text(x)
					emit("delete: "+t, edit{x.Pos(), x.End(), "_ = 0"})
				}
			case *ast.BranchStmt:
				rep(x, "_ = 0")
			case *ast.ReturnStmt:
				if i == len(l)-1 && len(x.Results) == 0 {
					rep(x, "_ = 0")
				}
				// return of a value and no error, instead of an error, and the other way round
				if n := len(x.Results); n >= 1 {
					if id, ok := x.Results[n-1].(*ast.Ident); ok && id.Name == "err" {
						rep(id, "nil")
					}
				}
			}
			// two statements exchanged
			if i+1 < len(l) {
				a, b := s, l[i+1]
				_, ra := a.(*ast.ReturnStmt)
				_, rb := b.(*ast.ReturnStmt)
				if !ra && !rb {
					emit("exchange: "+clip(text(a))+" <-> "+clip(text(b)), edit{a.Pos(), a.End(), text(b)}, edit{b.Pos(), b.End(), text(a)})
				}
			}
		}
	}
	walk = func(root ast.Node) {
		ast.Inspect(root, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				visitList(x.List)
			case *ast.CaseClause:
				visitList(x.Body)
			case *ast.IfStmt:
				c := text(x.Cond)
				rep(x.Cond, "!("+c+")")
				rep(x.Cond, "("+c+") && false")
				rep(x.Cond, "("+c+") || true")
				if x.Else != nil {
					emit("drop else: "+clip(text(x.Else)), edit{x.Body.End(), x.Else.End(), ""})
				}
			case *ast.BinaryExpr:
				op := map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
					token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
				}[x.Op]
				for _, o := range op {
					emit(text(x)+"  ==>  "+o, edit{x.OpPos, x.OpPos + token.Pos(len(x.Op.String())), o})
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					rep(x, text(x.X))
					rep(x, text(x.Y))
				}
			case *ast.BasicLit:
				if inErr > 0 {
					return true
				}
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						rep(x, fmt.Sprint(v+1))
						if v > 0 {
							rep(x, fmt.Sprint(v-1))
						}
					}
				case token.STRING:
					if x.Value == `""` {
						rep(x, `"x"`)
					} else if v, err := strconv.Unquote(x.Value); err == nil {
						rep(x, strconv.Quote(v+"x"))
						rep(x, `""`)
					}
				}
			case *ast.Ident:
				switch x.Name {
				case "true":
					rep(x, "false")
				case "false":
					rep(x, "true")
				}
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				return false
			case *ast.CallExpr:
				t := text(x.Fun)
				if strings.HasPrefix(t, "fmt.Errorf") || strings.HasPrefix(t, "errors.New") {
					return false
				}
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					if text(a) != text(b) {
						emit("swap arguments: "+text(x), edit{a.Pos(), a.End(), text(b)}, edit{b.Pos(), b.End(), text(a)})
					}
				}
				for _, a := range x.Args {
					if id, ok := a.(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" {
						emit(text(x)+": "+id.Name+" ==> nil", edit{a.Pos(), a.End(), "nil"})
					}
				}
			case *ast.KeyValueExpr:
				if id, ok := x.Key.(*ast.Ident); ok {
					_ = id
					emit("drop element: "+text(x), edit{x.Pos(), x.End(), ""})
				}
			case *ast.RangeStmt:
				emit("skip loop: "+clip(text(x)), edit{x.Body.Lbrace + 1, x.Body.Lbrace + 1, " break;"})
				if len(x.Body.List) > 0 {
					l := x.Body.List[len(x.Body.List)-1]
					emit("one turn only: "+clip(text(x)), edit{l.End(), l.End(), "; break"})
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		walk(d)
	}
	// locking left out of one function
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		var edits []edit
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			var call ast.Expr
			switch x := n.(type) {
			case *ast.ExprStmt:
				call = x.X
			case *ast.DeferStmt:
				call = x.Call
			default:
				return true
			}
			if c, ok := call.(*ast.CallExpr); ok {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && strings.HasSuffix(s.Sel.Name, "ock") {
					edits = append(edits, edit{n.Pos(), n.End(), "_ = 0"})
				}
			}
			return true
		})
		if len(edits) > 0 {
			emit("LOCKS left out of "+fn.Name.Name, edits...)
		}
	}
}

func clip(s string) string {
	if len(s) > 70 {
		return s[:70] + "..."
	}
	return s
}
