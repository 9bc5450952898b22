package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kklash/mnemonikey"
const vxPath = modPath + "/zzverif/vx"
const hPath = modPath + "/zzverif/h"
const mainPath = modPath + "/cmd/mnemonikey"

type Prog struct {
	ssa        *ssa.Program
	fset       *token.FileSet
	pkgs       map[string]*ssa.Package
	sizes      types.Sizes
	runtimeErr types.Type
	errString  types.Type
	mu         sync.Mutex
	repoDir    string
	embeds     map[string]string // package path.variable -> content of the embedded file
}

func (p *Prog) isRepo(path string) bool {
	return (path == modPath || strings.HasPrefix(path, modPath+"/")) && !strings.HasPrefix(path, modPath+"/zzverif")
}

// overlayFiles maps virtual files below /repo/zzverif to the harness sources.
func overlayFiles(repo, harness string) (map[string]string, error) {
	out := map[string]string{}
	for _, d := range []string{"vx", "h", "replay"} {
		fs, err := filepath.Glob(filepath.Join(harness, d, "*.go"))
		if err != nil {
			return nil, err
		}
		sort.Strings(fs)
		for _, f := range fs {
			out[filepath.Join(repo, "zzverif", d, filepath.Base(f))] = f
		}
	}
	return out, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")
}

func Load(repo, harness string) (*Prog, error) {
	ov, err := overlayFiles(repo, harness)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for v, f := range ov {
		if strings.Contains(v, "/zzverif/replay/") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	overlay[filepath.Join(repo, "zzverif", "h", "zz_text.go")] = sourceText(repo)
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Env:        goEnv(),
		Overlay:    overlay,
		BuildFlags: []string{"-tags=purego,verifengine"},
	}
	pkgs, err := packages.Load(cfg, hPath, mainPath, modPath, modPath+"/pgp", modPath+"/mnemonic")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs[:min(len(errs), 8)], "; "))
	}
	sp, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	sp.Build()
	p := &Prog{ssa: sp, pkgs: map[string]*ssa.Package{}, repoDir: repo, embeds: map[string]string{}}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		imp := q.Imports["embed"]
		if imp == nil {
			return
		}
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, sp := range g.Specs {
					vs := sp.(*ast.ValueSpec)
					for _, doc := range []*ast.CommentGroup{g.Doc, vs.Doc} {
						if doc == nil || len(vs.Names) != 1 {
							continue
						}
						for _, c := range doc.List {
							if pat, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
								file := filepath.Join(filepath.Dir(q.Fset.Position(f.Pos()).Filename), strings.TrimSpace(pat))
								if b, err := os.ReadFile(file); err == nil {
									p.embeds[q.PkgPath+"."+vs.Names[0].Name] = string(b)
								}
							}
						}
					}
				}
			}
		}
	})
	p.fset = sp.Fset
	for _, q := range sp.AllPackages() {
		p.pkgs[q.Pkg.Path()] = q
	}
	p.sizes = types.SizesFor("gc", "amd64")
	if rt := p.pkgs["runtime"]; rt != nil {
		p.runtimeErr = rt.Type("errorString").Type()
	}
	if e := p.pkgs["errors"]; e != nil {
		p.errString = types.NewPointer(e.Type("errorString").Type())
	}
	return p, nil
}
