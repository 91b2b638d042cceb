package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/liujiangwei/xxcache"

type Program struct {
	prog  *ssa.Program
	pkgs  []*packages.Package
	sizes types.Sizes
	rtErr types.Type
	errMs map[string]types.Type

	mu    sync.Mutex
	impl  map[implKey]bool
	meths map[methKey]*ssa.Function
	tier  int
	repo  string
	cmods map[string]*cModule
	cerrs map[string]error
}

type implKey struct {
	t types.Type
	i *types.Interface
}
type methKey struct {
	t types.Type
	m *types.Func
}

// harnessOverlay maps the harness sources into /repo as virtual packages.
func harnessOverlay(repo, verif string, replay bool) (map[string]string, error) {
	ov := map[string]string{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		if strings.HasPrefix(rel, "inpkg/") {
			// inpkg/<dir>/file.go goes into /repo/<dir>/file.go
			ov[filepath.Join(repo, strings.TrimPrefix(rel, "inpkg/"))] = path
			return nil
		}
		ov[filepath.Join(repo, "zzverif", rel)] = path
		return nil
	})
	return ov, err
}

func loadProgram(repo, verif string, pkgsWanted []string) (*Program, error) {
	ov, err := harnessOverlay(repo, verif, false)
	if err != nil {
		return nil, err
	}
	o := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		o[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: o, Env: os.Environ()}
	ps, err := packages.Load(cfg, pkgsWanted...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{repo: repo, prog: prog, pkgs: ps, impl: map[implKey]bool{}, meths: map[methKey]*ssa.Function{}}
	P.sizes = types.SizesFor("gc", "amd64")
	// a named string type with Error() serves as the runtime.Error
	rt := prog.ImportedPackage("runtime")
	if rt == nil {
		return nil, fmt.Errorf("runtime package not loaded")
	}
	P.rtErr = rt.Type("errorString").Type()
	return P, nil
}

func (P *Program) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	P.mu.Lock()
	r, ok := P.impl[k]
	P.mu.Unlock()
	if ok {
		return r
	}
	r = types.Implements(t, it)
	P.mu.Lock()
	P.impl[k] = r
	P.mu.Unlock()
	return r
}

func (P *Program) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	P.mu.Lock()
	defer P.mu.Unlock()
	if f, ok := P.meths[k]; ok {
		return f
	}
	f := P.prog.LookupMethod(t, m.Pkg(), m.Name())
	P.meths[k] = f
	return f
}
