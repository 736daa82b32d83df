// mutate prints one-place changes to the Go files of a module, one JSON object per line:
// {"file","from","to","new","kind"}. Development aid; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	File     string `json:"file"`
	From, To int
	New      string
	Kind     string
	Func     string
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if strings.HasPrefix(rel, "examples") || strings.Contains(rel, "testutil") || strings.HasPrefix(rel, ".") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(q token.Pos) int { return fs.Position(q).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				name = text(fd.Recv.List[0].Type) + "." + name
			}
			out := func(kind string, from, to token.Pos, s string) {
				enc.Encode(mut{rel, off(from), off(to), s, kind, name})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[n.Op] {
						out("op "+n.Op.String()+" "+s, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						out("int+1", n.Pos(), n.End(), "("+n.Value+" + 1)")
						if n.Value != "0" {
							out("int-1", n.Pos(), n.End(), "("+n.Value+" - 1)")
						}
					}
					if n.Kind == token.FLOAT {
						out("float", n.Pos(), n.End(), "("+n.Value+" + 1)")
					}
				case *ast.Ident:
					if n.Name == "true" {
						out("bool", n.Pos(), n.End(), "false")
					} else if n.Name == "false" {
						out("bool", n.Pos(), n.End(), "true")
					}
				case *ast.IfStmt:
					out("if true", n.Cond.Pos(), n.Cond.End(), "(true || ("+text(n.Cond)+"))")
					out("if false", n.Cond.Pos(), n.Cond.End(), "(false && ("+text(n.Cond)+"))")
				case *ast.IncDecStmt:
					if n.Tok == token.INC {
						out("++", n.TokPos, n.TokPos+2, "--")
					} else {
						out("--", n.TokPos, n.TokPos+2, "++")
					}
				case *ast.AssignStmt:
					switch n.Tok {
					case token.ADD_ASSIGN:
						out("+=", n.TokPos, n.TokPos+2, "-=")
					case token.SUB_ASSIGN:
						out("-=", n.TokPos, n.TokPos+2, "+=")
					case token.MUL_ASSIGN:
						out("*=", n.TokPos, n.TokPos+2, "/=")
					}
				case *ast.ReturnStmt:
					for i, r := range n.Results {
						if t := text(r); i == len(n.Results)-1 && (strings.HasPrefix(t, "err")) {
							out("return nil", r.Pos(), r.End(), "nil")
						}
					}
				case *ast.BlockStmt:
					for i, s := range n.List {
						switch x := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
							out("delete", s.Pos(), s.End(), "")
						case *ast.AssignStmt:
							if x.Tok != token.DEFINE {
								out("delete", s.Pos(), s.End(), "")
							}
						}
						if i+1 < len(n.List) {
							a, b := n.List[i], n.List[i+1]
							if simple(a) && simple(b) {
								out("swap", a.Pos(), b.End(), text(b)+"; "+text(a))
							}
						}
					}
				case *ast.SelectorExpr:
					for _, pr := range [][2]string{{"Left", "Right"}, {"left", "right"}, {"Max", "Min"}, {"lowHeap", "highHeap"}, {"PushBack", "PushFront"}, {"PopBack", "PopFront"}, {"Back", "Front"}, {"Lock", "RLock"}, {"Unlock", "RUnlock"}, {"Ceil", "Floor"}, {"prevs", "ranks"}} {
						for k := 0; k < 2; k++ {
							if n.Sel.Name == pr[k] {
								out("sel", n.Sel.Pos(), n.Sel.End(), pr[1-k])
							}
						}
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 {
						out("swapargs", n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]))
					}
					for _, a := range n.Args {
						if id, ok := a.(*ast.Ident); ok && len(n.Args) == 1 && id.Name == "x" {
							out("arg", a.Pos(), a.End(), "x + 1")
						}
					}
				}
				return true
			})
		}
		return nil
	})
	fmt.Fprintln(os.Stderr, "done")
}

func simple(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt:
		return true
	case *ast.AssignStmt:
		return s.Tok != token.DEFINE
	}
	return false
}
