package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// sourceText generates a Go file listing the texts (string literals of several words) of the command-line tool.
func sourceText(repo string) []byte {
	seen := map[string]bool{}
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Join(repo, "cmd", "mnemonikey", "*.go"))
	for _, fn := range fs {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		src, err := os.ReadFile(fn)
		if err != nil {
			continue
		}
		f, err := parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		var fold func(e ast.Expr) (string, bool)
		fold = func(e ast.Expr) (string, bool) {
			switch e := e.(type) {
			case *ast.BasicLit:
				if e.Kind == token.STRING {
					s, err := strconv.Unquote(e.Value)
					return s, err == nil
				}
			case *ast.ParenExpr:
				return fold(e.X)
			case *ast.BinaryExpr:
				if e.Op == token.ADD {
					a, ok1 := fold(e.X)
					b, ok2 := fold(e.Y)
					return a + b, ok1 && ok2
				}
			}
			return "", false
		}
		ast.Inspect(f, func(n ast.Node) bool {
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			s, ok := fold(e)
			if !ok {
				return true
			}
			if s = strings.ReplaceAll(s, "`", ""); !strings.ContainsAny(s, "%\x1b") && len(strings.Fields(s)) >= 6 {
				seen[strings.Join(strings.Fields(s), " ")] = true
			}
			return false
		})
	}
	var all []string
	for s := range seen {
		all = append(all, s)
	}
	sort.Strings(all)
	var b strings.Builder
	b.WriteString("package h\n\nfunc init() {\n\tsourceTexts = []string{\n")
	for _, s := range all {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n}\n")
	return []byte(b.String())
}
