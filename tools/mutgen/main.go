// mutgen lists small source changes of a package's non-test files, one JSON
// object per line: file, start, end (byte offsets), text, description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	ID         string `json:"id"`
	File       string `json:"file"`
	Func       string `json:"func"`
	Line       int    `json:"line"`
	Start, End int
	Text       string `json:"text"`
	Desc       string `json:"desc"`
}

func main() {
	files, _ := filepath.Glob(filepath.Join(os.Args[1], "*.go"))
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, _ := os.ReadFile(f)
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		n := 0
		fn := ""
		emit := func(s, e token.Pos, text, kind string) {
			old := string(src[off(s):off(e)])
			if old == text {
				return
			}
			n++
			short := func(x string) string {
				x = strings.Join(strings.Fields(x), " ")
				if len(x) > 70 {
					x = x[:67] + "..."
				}
				return x
			}
			b := strings.TrimSuffix(filepath.Base(f), ".go")
			enc.Encode(mut{ID: fmt.Sprintf("%s-%03d", b, n), File: filepath.Base(f), Func: fn, Line: fset.Position(s).Line, Start: off(s), End: off(e), Text: text,
				Desc: kind + ": " + short(old) + " => " + short(text)})
		}
		txt := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				if gd, ok := d.(*ast.GenDecl); ok && (gd.Tok == token.CONST || gd.Tok == token.VAR) {
					fn = ""
					ast.Inspect(gd, func(x ast.Node) bool {
						if l, ok := x.(*ast.BasicLit); ok && l.Kind == token.INT {
							if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
								emit(l.Pos(), l.End(), fmt.Sprint(v+1), "const")
							}
						}
						return true
					})
				}
				continue
			}
			if fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			results := 0
			lastErr := false
			if fd.Type.Results != nil {
				results = fd.Type.Results.NumFields()
				l := fd.Type.Results.List[len(fd.Type.Results.List)-1]
				lastErr = txt(l.Type) == "error"
			}
			_ = results
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.BlockStmt:
					for i, s := range x.List {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
							emit(s.Pos(), s.End(), "", "delete")
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), "", "delete")
							}
						case *ast.ReturnStmt:
							if i != len(x.List)-1 || x != fd.Body {
								emit(s.Pos(), s.End(), "", "delete")
							}
						case *ast.IfStmt:
							if s.Else == nil && s.Init == nil {
								emit(s.Pos(), s.End(), "", "delete if")
							}
						}
						// swap with the next statement
						if i+1 < len(x.List) {
							simple := func(s ast.Stmt) bool {
								switch s := s.(type) {
								case *ast.ExprStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.IfStmt, *ast.IncDecStmt:
									return true
								case *ast.AssignStmt:
									return s.Tok != token.DEFINE
								}
								return false
							}
							if a, b := s, x.List[i+1]; simple(a) && simple(b) {
								emit(a.Pos(), b.End(), txt(b)+"\n"+txt(a), "swap")
							}
						}
					}
				case *ast.DeferStmt:
					if _, ok := x.Call.Fun.(*ast.FuncLit); !ok {
						emit(x.Pos(), x.End(), txt(x.Call), "undefer")
					}
				case *ast.GoStmt:
					emit(x.Pos(), x.End(), txt(x.Call), "ungo")
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate")
					emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "never")
					emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "always")
					if x.Else != nil {
						emit(x.Body.End(), x.Else.End(), "", "delete else")
					}
				case *ast.ForStmt:
					if x.Cond != nil {
						emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "never")
					}
				case *ast.BinaryExpr:
					op := func(s string) { emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op "+txt(x)) }
					switch x.Op {
					case token.LSS:
						op("<=")
						op("!=")
					case token.LEQ:
						op("<")
						op("==")
					case token.GTR:
						op(">=")
						op("!=")
					case token.GEQ:
						op(">")
						op("==")
					case token.EQL:
						op("!=")
					case token.NEQ:
						op("==")
					case token.LAND:
						op("||")
						emit(x.Pos(), x.End(), txt(x.X), "drop")
						emit(x.Pos(), x.End(), txt(x.Y), "drop")
					case token.LOR:
						op("&&")
						emit(x.Pos(), x.End(), txt(x.X), "drop")
						emit(x.Pos(), x.End(), txt(x.Y), "drop")
					case token.ADD:
						op("-")
					case token.SUB:
						op("+")
					case token.MUL:
						op("/")
					case token.QUO:
						op("*")
					case token.REM:
						op("*")
					case token.AND:
						op("|")
					case token.OR:
						op("&")
					case token.SHL:
						op(">>")
					case token.SHR:
						op("<<")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "const")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), "const")
							}
						}
					}
					if x.Kind == token.STRING {
						if v, _ := strconv.Unquote(x.Value); len(v) > 0 {
							emit(x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]+"~"), "string")
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "bool")
					}
					if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "bool")
					}
					// a sibling constant or method
					if y, ok := map[string]string{"ErrConnClosed": "ErrWriterClosed", "RLock": "Lock", "TryLock": "Lock", "lock": "tryLock", "CloseNormalClosure": "CloseGoingAway", "CloseGoingAway": "CloseNormalClosure", "CloseProtocolError": "CloseGoingAway", "readTimeout": "writeWait", "writeWait": "readTimeout", "Lock": "RLock", "OpcodeText": "OpcodeBinary", "OpcodeBinary": "OpcodeText"}[x.Name]; ok {
						emit(x.Pos(), x.End(), y, "name")
					}
				case *ast.CommClause:
					emit(x.Pos(), x.End(), "", "delete case")
				case *ast.CaseClause:
					emit(x.Pos(), x.End(), "", "delete case")
				case *ast.ReturnStmt:
					if lastErr && len(x.Results) > 0 {
						l := x.Results[len(x.Results)-1]
						if len(x.Results) == results && txt(l) != "nil" {
							emit(l.Pos(), l.End(), "nil", "return nil")
							if id, ok := l.(*ast.CallExpr); ok && strings.Contains(strings.ToLower(txt(id.Fun)), "fatal") && len(id.Args) == 1 {
								emit(l.Pos(), l.End(), txt(id.Args[0]), "unfatal")
							}
						}
					}
				case *ast.CallExpr:
					if len(x.Args) >= 2 && x.Ellipsis == 0 {
						for i := 0; i+1 < len(x.Args); i++ {
							emit(x.Args[i].Pos(), x.Args[i+1].End(), txt(x.Args[i+1])+", "+txt(x.Args[i]), "swap args")
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), "("+txt(x.Low)+")+1", "slice")
					}
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), "("+txt(x.High)+")-1", "slice")
					}
				}
				return true
			})
		}
	}
}
