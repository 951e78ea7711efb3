package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA of the repository plus the harness packages.
type Program struct {
	prog *ssa.Program
	pkgs []*ssa.Package
	fcMu sync.Mutex
	fc   map[*ssa.Function]*Closure
	meth map[methKey]*ssa.Function
}

// overlayFiles maps virtual files under /repo to files under /verif/harness.
func overlayFiles(harness, repo string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(harness, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harness, p)
		out[filepath.Join(repo, rel)] = p
		return nil
	})
	return out, err
}

func loadProgram(repo, harness, modfile string, patterns []string) (*Program, error) {
	ov, err := overlayFiles(harness, repo)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay,
		BuildFlags: []string{"-modfile=" + modfile},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return &Program{prog: prog, pkgs: ps, fc: map[*ssa.Function]*Closure{}, meth: map[methKey]*ssa.Function{}}, nil
}

func (p *Program) harnessFn(pkg, name string) *ssa.Function {
	for _, k := range p.prog.AllPackages() {
		if k.Pkg.Path() == pkg || strings.HasSuffix(k.Pkg.Path(), "/zzverif/"+pkg) {
			if f := k.Func(name); f != nil {
				return f
			}
		}
	}
	return nil
}
