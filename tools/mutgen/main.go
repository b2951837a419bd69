// mutgen prints small changes to the files it is given, one JSON object a
// line: the file, the bytes to replace and what with.  Half of them only take
// effect under a condition (a depth, a length, a setting, a buffer's state).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Func string `json:"func"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Op   string `json:"op"`
}

var triggers = map[string][]string{
	"*Writer": {"W.current == 4", "W.current >= 7", "(W.current >= 0 && W.nodes[W.current].children == 3)", `W.NewlineString != "\n"`, "!W.StrictChars",
		`W.Version != ""`, "W.printer.Buffered() == 0", "W.printer.Available() < 4", "W.Indenter != nil", "W.last.Node == CommentNode", "!W.Enforce",
		`W.encoding != "UTF-8"`, "len(W.nodes) > 8", "W.InitialBufSize < 64", "W.current < 0", "(W.current > 0 && W.nodes[W.current-1].children > 1)",
		"(W.current >= 0 && W.nodes[W.current].state == StateOpened)", "W.current == 1"},
	"*node":       {"W.children == 2", "W.children > 8", "W.kind == CDataNode", "W.dash"},
	"printer":     {"W.Buffered() == 0", "W.Available() < 4", "W.Size() < 64", "W.Buffered() > 500"},
	"string":      {"len(W) > 100", "len(W) == 16", "len(W) == 0", "len(W) > 1500", `strings.Contains(W, "-")`, `strings.HasSuffix(W, " ")`, `strings.Contains(W, "\n")`},
	"Attr":        {`W.Prefix != ""`, `W.URI != ""`, "len(W.Value) > 40", `W.Value == ""`, `(W.Prefix == "" && W.URI != "")`, `W.Name == "xmlns"`},
	"Elem":        {`W.Prefix != ""`, "len(W.Content) > 2", "len(W.Attrs) > 1", "W.Full", "len(W.namespaces) > 1", `(W.Full && len(W.Content) > 0)`, `(W.URI != "" && len(W.Attrs) > 0)`},
	"DTD":         {`W.PublicID != ""`, `W.SystemID != ""`},
	"Doc":         {"W.SuppressVersion", "W.SuppressEncoding", "W.Standalone != nil", "W.ForcedVersion != nil", "W.ForcedEncoding != nil"},
	"DTDAttr":     {`W.Value != ""`, "W.Default == DTDAttrFixed", "len(W.Name) > 3", "W.Type == DTDAttrID"},
	"DTDAttList":  {"len(W.Attrs) > 1", "len(W.Attrs) == 0"},
	"DTDEntity":   {"W.IsPE", `W.NDataID != ""`, `W.PublicID != ""`, `W.Content == ""`},
	"Notation":    {`W.PublicID != ""`, `(W.PublicID != "" && W.SystemID != "")`},
	"PI":          {`W.Content == ""`, "len(W.Target) == 3", "len(W.Content) > 20"},
	"Comment":     {`W.Content == ""`, "len(W.Content) > 20"},
	"CData":       {`W.Content == ""`, "len(W.Content) > 20"},
	"Text":        {`W == ""`, "len(W) > 50"},
	"Raw":         {`W == ""`, "len(W) > 50"},
	"CommentContent": {`W == ""`, "len(W) > 20"},
	"CDataContent":   {`W == ""`, "len(W) > 20"},
	"*StandardIndenter": {"W.depth > 3", "W.depth == 1", `W.IndentString != " "`},
	"*ErrCollector":     {"W.Index > 1", "W.Err != nil", "W.Index == 0"},
	"...error":          {"len(W) > 2", "len(W) == 1"},
	"...string":         {"len(W) == 2", "len(W) == 1"},
	"NodeKind":          {"W == CommentNode", "W == DTDAttListNode", "W == DocNode"},
	"int":               {"W == 0", "W == 3"},
	"bool":              {"W", "!W"},
	"float64":           {"W < 0", "W > 1e6"},
	"...Writable":       {"len(W) > 2", "len(W) == 1"},
	"...Startable":      {"len(W) > 1"},
	"...Attr":           {"len(W) > 1"},
}

func typeString(src []byte, fs *token.FileSet, e ast.Expr) string {
	return string(src[fs.Position(e.Pos()).Offset:fs.Position(e.End()).Offset])
}

func main() {
	seed, _ := strconv.Atoi(os.Args[1])
	rnd := rand.New(rand.NewSource(int64(seed)))
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[2:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			var trs []string
			add := func(fl *ast.FieldList) {
				if fl == nil {
					return
				}
				for _, p := range fl.List {
					for _, n := range p.Names {
						for _, t := range triggers[typeString(src, fs, p.Type)] {
							if n.Name != "_" && (!strings.Contains(t, "strings.") || strings.Contains(string(src), `"strings"`)) {
								trs = append(trs, strings.ReplaceAll(t, "W", n.Name))
							}
						}
					}
				}
			}
			add(fd.Recv)
			add(fd.Type.Params)
			errOnly := fd.Type.Results != nil && len(fd.Type.Results.List) == 1 && typeString(src, fs, fd.Type.Results.List[0].Type) == "error"
			emit := func(n ast.Node, op, repl string) {
				a, b := fs.Position(n.Pos()).Offset, fs.Position(n.End()).Offset
				enc.Encode(mutant{path, fd.Name.Name, fs.Position(n.Pos()).Line, a, b, string(src[a:b]), repl, op})
			}
			text := func(n ast.Node) string {
				return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
			}
			trig := func() string { return trs[rnd.Intn(len(trs))] }
			var stmts func(list []ast.Stmt)
			stmts = func(list []ast.Stmt) {
				for _, s := range list {
					switch t := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						emit(s, "delete", "{}")
						for i := 0; len(trs) > 0 && i < 2; i++ {
							emit(s, "delete-if", fmt.Sprintf("if !(%s) { %s }", trig(), text(s)))
						}
						emit(s, "twice-if", func() string {
							if len(trs) == 0 {
								return "{ " + text(s) + "; " + text(s) + " }"
							}
							return fmt.Sprintf("{ %s; if %s { %s } }", text(s), trig(), text(s))
						}())
					case *ast.AssignStmt:
						if t.Tok != token.DEFINE {
							emit(s, "delete", "{}")
							for i := 0; len(trs) > 0 && i < 2; i++ {
								emit(s, "delete-if", fmt.Sprintf("if !(%s) { %s }", trig(), text(s)))
							}
						}
					case *ast.ReturnStmt:
						if errOnly && len(t.Results) == 1 && text(t.Results[0]) != "nil" {
							emit(s, "return-nil", "return nil")
							if len(trs) > 0 {
								emit(s, "return-nil-if", fmt.Sprintf("if %s { return nil }; %s", trig(), text(s)))
							}
						}
					}
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch t := n.(type) {
				case *ast.CallExpr:
					if s := text(t.Fun); s == "fmt.Errorf" || s == "fmt.Sprintf" || s == "panic" {
						return false
					}
					// arguments exchanged
					for i := 0; i+1 < len(t.Args); i++ {
						if _, ok := t.Args[i].(*ast.BasicLit); ok {
							continue
						}
						a, b := text(t.Args[i]), text(t.Args[i+1])
						off := fs.Position(t.Args[i].Pos()).Offset
						end := fs.Position(t.Args[i+1].End()).Offset
						enc.Encode(mutant{path, fd.Name.Name, fs.Position(t.Pos()).Line, off, end, string(src[off:end]), b + ", " + a, "swap-args"})
					}
				case *ast.BlockStmt:
					stmts(t.List)
				case *ast.CaseClause:
					stmts(t.Body)
				case *ast.IfStmt:
					c := text(t.Cond)
					emit(t.Cond, "negate", "!("+c+")")
					emit(t.Cond, "true", "true || ("+c+")")
					emit(t.Cond, "false", "false && ("+c+")")
					for i := 0; len(trs) > 0 && i < 3; i++ {
						emit(t.Cond, "and-not", fmt.Sprintf("(%s) && !(%s)", c, trig()))
						emit(t.Cond, "or", fmt.Sprintf("(%s) || (%s)", c, trig()))
					}
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="},
						token.GTR: {">=", "=="}, token.GEQ: {">", "=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.OR: {"&"}, token.AND: {"|"}}
					for _, a := range alt[t.Op] {
						emit(t, "operator", text(t.X)+" "+a+" "+text(t.Y))
					}
					if t.Op == token.LAND || t.Op == token.LOR || t.Op == token.OR {
						emit(t, "left", text(t.X))
						emit(t, "right", text(t.Y))
					}
				case *ast.BasicLit:
					switch t.Kind {
					case token.INT, token.CHAR:
						emit(t, "literal", t.Value+"+1")
						emit(t, "literal", t.Value+"-1")
					case token.STRING:
						if v, err := strconv.Unquote(t.Value); err == nil {
							if v != "" {
								emit(t, "string", strconv.Quote(v[:len(v)-1]))
								emit(t, "string", strconv.Quote(v+" "))
							} else {
								emit(t, "string", `" "`)
							}
						}
					}
				case *ast.Ident:
					if t.Name == "true" {
						emit(t, "bool", "false")
					} else if t.Name == "false" {
						emit(t, "bool", "true")
					}
				case *ast.SelectorExpr:
					// another field of the same type
					for _, g := range [][]string{{"Prefix", "Name", "URI", "Value"}, {"PublicID", "SystemID", "NDataID", "Content"}, {"Target", "Content"}} {
						for i, x := range g {
							if t.Sel.Name == x && filepath.Base(path) != "errs.go" {
								emit(t.Sel, "field", g[(i+1)%len(g)])
							}
						}
					}
				}
				return true
			})
		}
	}
}
