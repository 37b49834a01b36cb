package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Programs (package main) cannot be imported: gen makes importable copies of
// them from the current sources.  harness/<id>/gen.json lists
//
//	{"from": "examples/fifo", "package": "fifo",
//	 "replace": {"os.Exit": "Exit"}}
//
// The copy is harness/gen/<package>, with func main called Main and the listed
// functions, named by import path, replaced by those of verif/harness/cli.
// Lines stay where they are.

const genPrefix = harnessModule + "/gen/"

type genSpec struct {
	From    string            `json:"from"`
	Package string            `json:"package"`
	Replace map[string]string `json:"replace"`
}

func genPrograms(id string) error {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", strings.ToLower(id), "gen.json"))
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		return err
	}
	var specs []genSpec
	if err := json.Unmarshal(b, &specs); err != nil {
		return err
	}
	for _, s := range specs {
		if err := s.run(); err != nil {
			return err
		}
	}
	return nil
}

func (s genSpec) run() error {
	dir := filepath.Join(repoDir, s.From)
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	out := filepath.Join(verifDir, "harness", "gen", s.Package)
	if err := os.MkdirAll(out, 0755); err != nil {
		return err
	}
	keep := map[string]bool{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		txt, err := s.file(f)
		if err != nil {
			return err
		}
		to := filepath.Join(out, filepath.Base(f))
		keep[to] = true
		if old, err := os.ReadFile(to); err == nil && string(old) == txt {
			continue
		}
		tmp := fmt.Sprintf("%s.%d", to, os.Getpid())
		if err := os.WriteFile(tmp, []byte(txt), 0644); err != nil {
			return err
		}
		if err := os.Rename(tmp, to); err != nil {
			return err
		}
	}
	if len(keep) == 0 {
		return fmt.Errorf("no program in %s", dir)
	}
	old, _ := filepath.Glob(filepath.Join(out, "*.go"))
	for _, f := range old {
		if !keep[f] {
			os.Remove(f)
		}
	}
	return nil
}

func (s genSpec) file(path string) (string, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	type rep struct {
		a, b int
		txt  string
	}
	reps := []rep{{off(f.Name.Pos()), off(f.Name.End()), s.Package + "; import verifcli \"" + harnessModule + "/cli\""}}
	names := map[string]string{}
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, "\"")
		n := p[strings.LastIndex(p, "/")+1:]
		if p == repoPrefix+"/http" {
			n = "jlibhttp"
		}
		if im.Name != nil {
			n = im.Name.Name
		}
		names[n] = p
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil && x.Name.Name == "main" {
				reps = append(reps, rep{off(x.Name.Pos()), off(x.Name.End()), "Main"})
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			if to := s.Replace[names[id.Name]+"."+x.Sel.Name]; names[id.Name] != "" && to != "" {
				reps = append(reps, rep{off(x.Pos()), off(x.End()), "verifcli." + to})
				used[id.Name+"."+x.Sel.Name] = true
			}
		}
		return true
	})
	sort.Slice(reps, func(i, j int) bool { return reps[i].a < reps[j].a })
	var sb strings.Builder
	last := 0
	for _, r := range reps {
		sb.Write(src[last:r.a])
		sb.WriteString(r.txt)
		last = r.b
	}
	sb.Write(src[last:])
	for _, u := range sortedKeys(used) {
		fmt.Fprintf(&sb, "\nvar _ = %s\n", u)
	}
	sb.WriteString("\nvar _ = verifcli.Used\n")
	return sb.String(), nil
}

func genAll() int {
	files, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*", "gen.json"))
	for _, f := range files {
		if err := genPrograms(filepath.Base(filepath.Dir(f))); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	return 0
}
