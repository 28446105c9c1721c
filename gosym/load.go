package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type loadCfg struct {
	dir      string // module directory
	modfile  string
	overlay  map[string][]byte
	patterns []string
}

var goEnv = func() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED", "GOPATH", "GOMODCACHE", "HOME", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "HOME=/root", "GOTOOLCHAIN=local", "GOWORK=off", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "CGO_ENABLED=0", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod")
}()

func loadProgram(c loadCfg) (*program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     c.dir,
		Env:     goEnv,
		Overlay: c.overlay,
	}
	cfg.BuildFlags = append(cfg.BuildFlags, "-tags=purego,appengine")
	if c.modfile != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-modfile="+c.modfile)
	}
	pkgs, err := packages.Load(cfg, c.patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 10 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pr := &program{prog: prog, gidx: map[*ssa.Global]int{}, pkgs: map[*ssa.Package]*pkgInfo{}}
	pr.repoPath = func(p string) bool { return strings.HasPrefix(p, "github.com/aws/go-kafka-event-source/") }
	pr.runtimeErr = pr.canon(pr.typeOf("runtime", "errorString"))
	pr.errorStr = pr.canon(types.NewPointer(pr.typeOf("errors", "errorString")))
	if prog.ImportedPackage("fmt") != nil {
		pr.wrapErr = pr.canon(types.NewPointer(pr.typeOf("fmt", "wrapError")))
	}
	if prog.ImportedPackage("context") != nil {
		pr.valueCtx = pr.canon(types.NewPointer(pr.typeOf("context", "valueCtx")))
	}
	pr.root = pkgs
	return pr, nil
}

var initNotes sync.Map

func (pr *program) noteInit(pkg, msg string) { initNotes.Store(pkg, msg) }

func (pr *program) typeOf(pkg, name string) types.Type {
	p := pr.prog.ImportedPackage(pkg)
	if p == nil {
		panic(engineError{"package not loaded: " + pkg})
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(engineError{"no type " + pkg + "." + name})
	}
	return o.Type()
}

var msCache typeutil.MethodSetCache

func (pr *program) methodSet(t types.Type) *types.MethodSet { return msCache.MethodSet(t) }

// harnessFn finds the harness function in the root packages.
func (pr *program) harnessFn(name string) *fnInfo {
	for _, p := range pr.root {
		sp := pr.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		if f := sp.Func(name); f != nil {
			return pr.fnInfo(f)
		}
	}
	panic(engineError{"no harness " + name})
}
