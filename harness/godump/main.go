// Reads Go source files, one JSON string a line, and prints what they declare as JSON:
// nodes of [kind, text, [children]], constants with their values.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type node []any

func n(kind, text string, kids ...node) node {
	if kids == nil {
		kids = []node{}
	}
	return node{kind, text, kids}
}

var fset *token.FileSet

func text(x any) string {
	var b strings.Builder
	if err := format.Node(&b, fset, x); err != nil {
		return "?" + err.Error()
	}
	return b.String()
}

func sig(t *ast.FuncType) string {
	return strings.TrimPrefix(text(t), "func")
}

func exprs(xs []ast.Expr) []node {
	out := []node{}
	for _, x := range xs {
		out = append(out, expr(x))
	}
	return out
}

func expr(x ast.Expr) node {
	switch e := x.(type) {
	case *ast.CallExpr:
		if f, ok := e.Fun.(*ast.FuncLit); ok {
			return n("call", "", append([]node{expr(f)}, exprs(e.Args)...)...)
		}
		return n("call", text(e.Fun), exprs(e.Args)...)
	case *ast.FuncLit:
		return n("func", sig(e.Type), block(e.Body)...)
	case *ast.CompositeLit:
		return n("lit", text(e.Type), exprs(e.Elts)...)
	case *ast.KeyValueExpr:
		return n("kv", text(e.Key), expr(e.Value))
	}
	return n("expr", text(x))
}

func block(b *ast.BlockStmt) []node {
	return stmts(b.List)
}

func stmts(l []ast.Stmt) []node {
	out := []node{}
	for _, s := range l {
		out = append(out, stmt(s))
	}
	return out
}

func stmt(s ast.Stmt) node {
	switch x := s.(type) {
	case *ast.AssignStmt:
		return n("set", x.Tok.String(), append(exprs(x.Lhs), exprs(x.Rhs)...)...)
	case *ast.ReturnStmt:
		return n("return", "", exprs(x.Results)...)
	case *ast.IfStmt:
		if x.Init == nil && x.Else == nil {
			return n("if", text(x.Cond), block(x.Body)...)
		}
	case *ast.ForStmt:
		if x.Init == nil && x.Post == nil && x.Cond != nil {
			return n("for", text(x.Cond), block(x.Body)...)
		}
	case *ast.SwitchStmt:
		if x.Init == nil && x.Tag != nil {
			return n("switch", text(x.Tag), stmts(x.Body.List)...)
		}
	case *ast.CaseClause:
		l := []string{}
		for _, e := range x.List {
			l = append(l, text(e))
		}
		return n("case", strings.Join(l, ", "), stmts(x.Body)...)
	case *ast.BranchStmt:
		l := ""
		if x.Label != nil {
			l = x.Label.Name
		}
		return n(x.Tok.String(), l)
	case *ast.ExprStmt:
		return n("do", "", expr(x.X))
	case *ast.DeclStmt:
		return n("decl", text(x.Decl))
	}
	return n("stmt", text(s))
}

func lines(g *ast.CommentGroup) []string {
	out := []string{}
	if g != nil {
		for _, c := range g.List {
			out = append(out, c.Text)
		}
	}
	return out
}

func value(x ast.Expr) map[string]string {
	switch e := x.(type) {
	case *ast.Ident:
		if e.Name == "true" || e.Name == "false" {
			return map[string]string{"k": "bool", "v": e.Name}
		}
	case *ast.BasicLit:
		switch e.Kind {
		case token.STRING:
			if s, err := strconv.Unquote(e.Value); err == nil {
				return map[string]string{"k": "str", "v": s}
			}
		case token.INT, token.FLOAT:
			return map[string]string{"k": "num", "v": e.Value}
		}
	case *ast.UnaryExpr:
		if e.Op == token.SUB {
			if v := value(e.X); v["k"] == "num" {
				return map[string]string{"k": "num", "v": "-" + v["v"]}
			}
		}
	case *ast.CompositeLit:
		if text(e.Type) == "[]byte" {
			b := []byte{}
			for _, x := range e.Elts {
				i, err := strconv.ParseUint(text(x), 0, 8)
				if err != nil {
					return map[string]string{"k": "?", "v": text(e)}
				}
				b = append(b, byte(i))
			}
			return map[string]string{"k": "bytes", "v": hex.EncodeToString(b)}
		}
	}
	return map[string]string{"k": "?", "v": text(x)}
}

func generics(l *ast.FieldList) string {
	if l == nil {
		return ""
	}
	out := []string{}
	for _, f := range l.List {
		for _, m := range f.Names {
			out = append(out, m.Name+" "+text(f.Type))
		}
	}
	return "[" + strings.Join(out, ", ") + "]"
}

func typ(x ast.Expr) map[string]any {
	switch t := x.(type) {
	case *ast.StructType:
		fs := []any{}
		for _, f := range t.Fields.List {
			names := []string{}
			for _, m := range f.Names {
				names = append(names, m.Name)
			}
			fs = append(fs, map[string]any{"name": strings.Join(names, ", "), "ty": text(f.Type), "doc": lines(f.Doc)})
		}
		return map[string]any{"k": "struct", "ty": "", "fs": fs}
	case *ast.InterfaceType:
		fs := []any{}
		for _, f := range t.Methods.List {
			names := []string{}
			for _, m := range f.Names {
				names = append(names, m.Name)
			}
			fs = append(fs, map[string]any{"name": strings.Join(names, ", "), "ty": text(f.Type), "doc": lines(f.Doc)})
		}
		return map[string]any{"k": "interface", "ty": "", "fs": fs}
	}
	return map[string]any{"k": "type", "ty": text(x), "fs": []any{}}
}

func file(src string) any {
	fset = token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return map[string]any{"err": err.Error()}
	}
	imports := []string{}
	decls := []any{}
	add := func(m map[string]any) { decls = append(decls, m) }
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			recv := ""
			if d.Recv != nil {
				for _, r := range d.Recv.List {
					for _, m := range r.Names {
						recv += m.Name + " "
					}
					recv += text(r.Type)
				}
			}
			t := *d.Type
			t.TypeParams = nil
			add(map[string]any{"d": "func", "name": d.Name.Name, "recv": recv, "gen": generics(d.Type.TypeParams), "doc": lines(d.Doc),
				"sig": params(d.Type.Params) + " " + params(d.Type.Results), "body": block(d.Body)})
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ImportSpec:
					imports = append(imports, text(s))
				case *ast.TypeSpec:
					m := typ(s.Type)
					m["d"], m["name"], m["gen"], m["doc"] = "type", s.Name.Name, generics(s.TypeParams), lines(d.Doc)
					if s.Assign.IsValid() {
						m["k"] = "alias of " + m["k"].(string)
					}
					add(m)
				case *ast.ValueSpec:
					if len(s.Names) != 1 || len(s.Values) != 1 {
						add(map[string]any{"d": "?", "name": text(s)})
					} else if s.Names[0].Name == "_" {
						add(map[string]any{"d": "assert", "ty": text(s.Type), "val": text(s.Values[0]), "doc": lines(d.Doc)})
					} else {
						ty := ""
						if s.Type != nil {
							ty = text(s.Type)
						}
						add(map[string]any{"d": d.Tok.String(), "name": s.Names[0].Name, "ty": ty, "val": value(s.Values[0]), "doc": lines(d.Doc)})
					}
				}
			}
		}
	}
	return map[string]any{"package": f.Name.Name, "doc": lines(f.Doc), "imports": imports, "decls": decls}
}

func params(l *ast.FieldList) string {
	if l == nil {
		return "()"
	}
	out := []string{}
	for _, f := range l.List {
		if len(f.Names) == 0 {
			out = append(out, text(f.Type))
		}
		for _, m := range f.Names {
			out = append(out, m.Name+" "+text(f.Type))
		}
	}
	return "(" + strings.Join(out, ", ") + ")"
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	out.SetEscapeHTML(false)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		var src string
		if json.Unmarshal([]byte(line), &src) != nil {
			out.Encode(map[string]any{"err": "not a string"})
			continue
		}
		out.Encode(file(src))
	}
}
