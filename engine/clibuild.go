package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var spliced = map[string]map[string]bool{
	"time": {"Now": true, "Since": true},
	"os": {"Stat": true, "Lstat": true, "Open": true, "Create": true, "OpenFile": true, "ReadFile": true, "WriteFile": true,
		"Remove": true, "Rename": true, "Link": true, "Chmod": true, "CreateTemp": true},
}

// instrument replaces references to the clock and to file operations by the stand-ins of zz_verif.go.
func instrument(src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	names := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if spliced[p] == nil {
			continue
		}
		n := p
		if im.Name != nil {
			n = im.Name.Name
		}
		names[n] = p
	}
	type edit struct {
		from, to int
		text     string
	}
	var eds []edit
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		p := names[id.Name]
		if p == "" || !spliced[p][s.Sel.Name] {
			return true
		}
		t := "zz" + s.Sel.Name
		if p == "os" {
			t = "zzOs" + s.Sel.Name
		}
		eds = append(eds, edit{fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset, t})
		return true
	})
	// delays between the steps of functions that start goroutines
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		starts := false
		ast.Inspect(fd, func(n ast.Node) bool {
			if _, ok := n.(*ast.GoStmt); ok {
				starts = true
			}
			return true
		})
		if !starts {
			continue
		}
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					p := fset.Position(s.Pos()).Offset
					eds = append(eds, edit{p, p, fmt.Sprintf("zzDelay(%d);", len(eds))})
				}
			}
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
	}
	sort.SliceStable(eds, func(i, j int) bool {
		return eds[i].from > eds[j].from || eds[i].from == eds[j].from && eds[i].to > eds[j].to
	})
	out := string(src)
	for _, e := range eds {
		out = out[:e.from] + e.text + out[e.to:]
	}
	for n, p := range names {
		if n == "_" || n == "." {
			continue
		}
		if p == "os" {
			out += "\nvar _ = " + n + ".DevNull\n"
		} else {
			out += "\nvar _ = " + n + ".Second\n"
		}
	}
	return []byte(out), nil
}

// buildCLI compiles the command-line tool with its clock, random source and file operations under control.
func (r *replayer) buildCLI(fast bool) (string, error) {
	key := fmt.Sprint("cli-", fast)
	if b, ok := r.bins[key]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", r.errs[key])
		}
		return b, nil
	}
	dir := filepath.Join(*flagRepo, "cmd", "mnemonikey")
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return "", err
	}
	ov := map[string]string{}
	od := filepath.Join(r.dir, "clisrc")
	os.MkdirAll(od, 0o755)
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		b, err := instrument(src)
		if err != nil {
			return "", err
		}
		p := filepath.Join(od, filepath.Base(f))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return "", err
		}
		ov[f] = p
	}
	b, err := os.ReadFile(filepath.Join(*flagVerif, "harness", "cli", "zz_verif.go.txt"))
	if err != nil {
		return "", err
	}
	p := filepath.Join(od, "zz_verif.go")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(dir, "zz_verif.go")] = p
	var modArgs []string
	if fast {
		mf, err := r.fastModfile()
		if err != nil {
			return "", err
		}
		modArgs = []string{"-modfile=" + mf, "-mod=mod"}
	}
	bin := filepath.Join(r.dir, key)
	build := func() ([]byte, error) {
		ob, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(r.dir, "overlay-"+key+".json")
		os.WriteFile(of, ob, 0o644)
		args := append([]string{"build", "-overlay", of, "-o", bin}, modArgs...)
		cmd := exec.Command("go", append(args, mainPath)...)
		cmd.Dir = *flagRepo
		cmd.Env = goEnv()
		return cmd.CombinedOutput()
	}
	out, err := build()
	if err != nil {
		// without control over clock and files if the sources resist the replacement
		for f := range ov {
			if filepath.Base(f) != "zz_verif.go" {
				delete(ov, f)
			}
		}
		out, err = build()
	}
	if err != nil {
		r.bins[key], r.errs[key] = "", string(out)
		return "", fmt.Errorf("%s", out)
	}
	r.bins[key] = bin
	return bin, nil
}
