// Command mutate lists small changes to a Go file, one JSON object per line, for
// measuring the checks: {"id","from","to","with","what"} as byte offsets.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	With string `json:"with"`
	What string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		seen := map[string]bool{}
		emit := func(n ast.Node, with, what string) {
			k := fmt.Sprint(off(n.Pos()), off(n.End()), with)
			if seen[k] || text(n) == with {
				return
			}
			seen[k] = true
			enc.Encode(mut{file, fs.Position(n.Pos()).Line, off(n.Pos()), off(n.End()), with, what})
		}
		span := func(a, b ast.Node, with, what string) {
			enc.Encode(mut{file, fs.Position(a.Pos()).Line, off(a.Pos()), off(b.End()), with, what})
		}
		call := func(s ast.Stmt, suffix string) bool {
			e, ok := s.(*ast.ExprStmt)
			if !ok {
				return false
			}
			return strings.HasSuffix(text(e), suffix)
		}
		list := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
					if !strings.HasSuffix(text(s), ".Lock()") && !strings.HasSuffix(text(s), "nlock()") && !strings.HasSuffix(text(s), ".RLock()") {
						emit(s, "", "delete "+text(s))
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						// keep the operands used
						emit(s, strings.Repeat("_, ", len(x.Lhs)-1)+"_ = "+func() string {
							var r []string
							for _, e := range x.Rhs {
								r = append(r, text(e))
							}
							return strings.Join(r, ", ")
						}(), "drop assignment "+text(s))
					}
				case *ast.ReturnStmt, *ast.BranchStmt:
					if len(l) > 0 && i == len(l)-1 {
						if r, ok := s.(*ast.ReturnStmt); !ok || len(r.Results) == 0 {
							emit(s, "", "delete "+text(s))
						}
					}
				case *ast.IfStmt:
					emit(x.Cond, "!("+text(x.Cond)+")", "negate "+text(x.Cond))
					emit(x.Cond, "("+text(x.Cond)+") && false", "never "+text(x.Cond))
				}
				if g, ok := s.(*ast.GoStmt); ok {
					emit(s, text(g.Call), "no go: "+head(text(s)))
				}
				if i+1 < len(l) {
					_, d1 := s.(*ast.DeclStmt)
					_, d2 := l[i+1].(*ast.DeclStmt)
					if !d1 && !d2 {
						span(s, l[i+1], text(l[i+1])+"\n"+text(s), "swap "+head(text(s))+" / "+head(text(l[i+1])))
					}
				}
				// a critical section less
				for _, p := range [][2]string{{".Lock()", ".Unlock()"}, {".RLock()", ".RUnlock()"}} {
					if call(s, p[0]) {
						for j := i + 1; j < len(l); j++ {
							if call(l[j], p[1]) {
								span(s, l[j], string(src[off(s.End()):off(l[j].Pos())]), "unlocked "+text(s))
								// one statement earlier or later
								if j > i+1 {
									span(l[j-1], l[j], text(l[j])+"\n"+text(l[j-1]), "unlock early")
								}
								if j+1 < len(l) {
									break
								}
								break
							}
							if d, ok := l[j].(*ast.DeferStmt); ok && strings.HasSuffix(text(d), p[1]) {
								span(s, d, "", "unlocked "+text(s))
								if p[0] == ".Lock()" {
									span(s, d, strings.Replace(text(s), ".Lock", ".RLock", 1)+"\n"+strings.Replace(text(d), ".Unlock", ".RUnlock", 1), "read lock only")
								}
								break
							}
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
				if len(x.Body) > 0 && x.List != nil {
					span(x.Body[0], x.Body[len(x.Body)-1], "", "empty case "+head(text(x)))
				}
			case *ast.CommClause:
				list(x.Body)
				if x.Comm != nil {
					emit(x, "", "drop select arm "+head(text(x)))
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}}[x.Op]
				for _, a := range alt {
					emit(x, text(x.X)+" "+a+" "+text(x.Y), text(x)+" -> "+a)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x, strconv.Itoa(v+1), x.Value+" -> +1")
						if v > 0 {
							emit(x, strconv.Itoa(v-1), x.Value+" -> -1")
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					emit(x, `""`, "empty string for "+x.Value)
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x, "false", "true -> false")
				}
				if x.Name == "false" {
					emit(x, "true", "false -> true")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low, text(x.Low)+"+1", "slice low +1")
				}
				if x.High != nil {
					emit(x.High, text(x.High)+"-1", "slice high -1")
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) > 1 {
					emit(x, text(x.Args[0]), "no append "+head(text(x)))
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "UTC" {
					emit(x, text(s.X), "no UTC")
				}
			case *ast.SelectorExpr:
				// sibling constants
				sib := map[string]string{"Stdout": "Stderr", "Stderr": "Stdout", "StdoutHistory": "StderrHistory", "StderrHistory": "StdoutHistory",
					"MemoryWarn": "MemoryKill", "MemoryKill": "MemoryWarn", "Success": "Failure", "Failure": "Success", "Alert": "AlertRate", "AlertRate": "Alert",
					"TimeWarning": "MemoryWarning", "MemoryWarning": "TimeWarning", "Timeout": "Memory", "Memory": "Timeout", "KillTimeout": "NotifyTimeout",
					"NotifyTimeout": "KillTimeout", "NotifyOnSuccess": "NotifyOnFailure", "NotifyOnFailure": "NotifyOnSuccess", "Start": "Finish", "Finish": "Start",
					"Second": "Minute", "Hour": "Minute", "Kill": "Interrupt", "Interrupt": "Kill", "RLock": "Lock", "Before": "After", "After": "Before",
					"Killed": "Success", "out": "err", "Min": "Max", "Max": "Min", "host": "port", "MaxHistory": "MaxHistoryDuration", "ExitCodeValid": "Killed"}
				if w, ok := sib[x.Sel.Name]; ok {
					emit(x.Sel, w, text(x)+" -> "+w)
				}
			}
			return true
		})
	}
}

func head(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}
