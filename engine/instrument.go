package main

// Instrumented sources for the native replay of schedules: before and after
// statements the real code may be held back for a moment (verif/harness/v
// Point), which is how a counterexample's scheduling deviations are imposed on
// the real goroutines.  Only the replay binary is built from these copies.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off int
	txt string
}

type instrumenter struct {
	fset  *token.FileSet
	file  string
	src   []byte
	edits []edit
}

func (in *instrumenter) line(p token.Pos) int { return in.fset.Position(p).Line }
func (in *instrumenter) off(p token.Pos) int  { return in.fset.Position(p).Offset }

func (in *instrumenter) point(off int, site string) {
	in.edits = append(in.edits, edit{off, "verifv.Point(" + strconv.Quote(in.file+":"+site) + "); "})
}

func (in *instrumenter) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *instrumenter) block(list []ast.Stmt, head int) {
	for i, s := range list {
		l := in.line(s.Pos())
		pre := fmt.Sprintf("%d", l)
		if i == 0 && head > 0 {
			in.point(in.off(s.Pos()), fmt.Sprintf("%d+", head))
		}
		in.point(in.off(s.Pos()), pre)
		// after: before the next statement, or at the end for plain statements
		after := fmt.Sprintf("%d+", l)
		if i+1 < len(list) {
			in.point(in.off(list[i+1].Pos()), after)
		} else {
			switch s.(type) {
			case *ast.ExprStmt, *ast.AssignStmt, *ast.SendStmt, *ast.GoStmt, *ast.IncDecStmt, *ast.DeferStmt:
				if e, ok := s.(*ast.ExprStmt); ok {
					if c, ok := e.X.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
							break
						}
					}
				}
				in.edits = append(in.edits, edit{in.off(s.End()), "; verifv.Point(" + strconv.Quote(in.file+":"+after) + ")"})
			}
		}
		if s, ok := s.(*ast.SendStmt); ok {
			// between evaluating the operands and sending
			if _, plain := s.Chan.(*ast.Ident); !plain {
				c, v := in.text(s.Chan), in.text(s.Value)
				if !strings.Contains(c+v, "\n") && !strings.Contains(c+v, "func(") {
					in.edits = append(in.edits, edit{in.off(s.Pos()), "{ verifc := " + c + "; verifv.Point(" + strconv.Quote(in.file+":"+pre+"~") + "); verifc <- " + v + " }; if false { "},
						edit{in.off(s.End()), " }"})
				}
			}
		}
	}
}

func (in *instrumenter) run(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil && len(x.Body.List) > 0 {
				in.point(in.off(x.Body.List[0].Pos()), fmt.Sprintf("%d{", in.line(x.Name.Pos())))
			}
		case *ast.FuncLit:
			if len(x.Body.List) > 0 {
				in.point(in.off(x.Body.List[0].Pos()), fmt.Sprintf("%d{", in.line(x.Pos())))
			}
		case *ast.IfStmt:
			in.block(x.Body.List, in.line(x.Pos()))
			x.Body = &ast.BlockStmt{List: x.Body.List, Lbrace: token.NoPos}
		case *ast.ForStmt:
			in.block(x.Body.List, in.line(x.Pos()))
			x.Body = &ast.BlockStmt{List: x.Body.List, Lbrace: token.NoPos}
		case *ast.RangeStmt:
			in.block(x.Body.List, in.line(x.Pos()))
			x.Body = &ast.BlockStmt{List: x.Body.List, Lbrace: token.NoPos}
		case *ast.CaseClause:
			in.block(x.Body, in.line(x.Pos()))
		case *ast.CommClause:
			if len(x.Body) > 0 {
				in.block(x.Body, in.line(x.Pos()))
			}
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			// their bodies hold clauses
			var b *ast.BlockStmt
			switch y := x.(type) {
			case *ast.SwitchStmt:
				b = y.Body
			case *ast.TypeSwitchStmt:
				b = y.Body
			case *ast.SelectStmt:
				b = y.Body
			}
			l := in.line(n.Pos())
			for _, c := range b.List {
				var list []ast.Stmt
				switch cc := c.(type) {
				case *ast.CaseClause:
					list = cc.Body
				case *ast.CommClause:
					list = cc.Body
				}
				if len(list) > 0 {
					in.point(in.off(list[0].Pos()), fmt.Sprintf("%d+", l))
				}
			}
			b.Lbrace = token.NoPos
		case *ast.BlockStmt:
			if x.Lbrace != token.NoPos {
				in.block(x.List, 0)
			}
		}
		return true
	})
}

// instrumentFile returns the instrumented text, or "" when it cannot be done.
func instrumentFile(path string) string {
	src, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return ""
	}
	in := &instrumenter{fset: fset, file: path, src: src}
	in.run(f)
	if len(in.edits) == 0 {
		return ""
	}
	in.edits = append(in.edits, edit{in.off(f.Name.End()), "; import verifv \"" + harnessModule + "/v\""})
	sort.SliceStable(in.edits, func(i, j int) bool { return in.edits[i].off < in.edits[j].off })
	var sb strings.Builder
	last := 0
	for _, e := range in.edits {
		sb.Write(src[last:e.off])
		sb.WriteString(e.txt)
		last = e.off
	}
	sb.Write(src[last:])
	out := sb.String()
	if _, err := parser.ParseFile(token.NewFileSet(), path, out, 0); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		return ""
	}
	return out
}

// instrumentDirs makes overlay entries for the packages.
func instrumentDirs(tmp string, dirs []string) map[string]string {
	out := map[string]string{}
	for i, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			txt := instrumentFile(f)
			if txt == "" {
				continue
			}
			to := filepath.Join(tmp, fmt.Sprintf("i%d-%s", i, filepath.Base(f)))
			if os.WriteFile(to, []byte(txt), 0644) == nil {
				out[f] = to
			}
		}
	}
	return out
}

// stmtSite maps a position inside a statement to the line its innermost
// statement starts at.
func stmtSite(site string) string {
	mode := ""
	for strings.HasSuffix(site, "+") || strings.HasSuffix(site, "{") {
		mode = site[len(site)-1:]
		site = site[:len(site)-1]
	}
	i := strings.LastIndex(site, ":")
	if i < 0 || mode == "{" {
		return site + mode
	}
	line, err := strconv.Atoi(site[i+1:])
	if err != nil {
		return site + mode
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, site[:i], nil, 0)
	if err != nil {
		return site + mode
	}
	best := line
	bestSpan := 1 << 30
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(ast.Stmt)
		if !ok {
			return true
		}
		switch n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return true
		}
		a, b := fset.Position(s.Pos()).Line, fset.Position(s.End()).Line
		if a <= line && line <= b && b-a <= bestSpan {
			best, bestSpan = a, b-a
		}
		return true
	})
	return fmt.Sprintf("%s:%d%s", site[:i], best, mode)
}
