package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const harnessMod = "verif.local/harness"
const repoMod = "github.com/qjebbs/go-sqlf/v2"

// Program is the SSA of the harness, the repository and what they import.
type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	sizes types.Sizes

	mu        sync.Mutex
	methods   map[methodKey]*ssa.Function
	impl      map[implKey]bool
	rtErr     types.Type
	rtypeT    types.Type
	fns       sync.Map // "pkg.name" -> *ssa.Function
	opq       sync.Map
	encFuncs  sync.Map
	intrCache sync.Map
}

type methodKey struct {
	t    types.Type
	pkg  string
	name string
}
type implKey struct {
	t  types.Type
	it *types.Interface
}

func load(dir string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	prog.Build()
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64"),
		methods: map[methodKey]*ssa.Function{}, impl: map[implKey]bool{}}
	for _, pkg := range prog.AllPackages() {
		p.pkgs[pkg.Pkg.Path()] = pkg
	}
	if rt := p.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			p.rtErr = t.Type()
		}
	}
	if rp := p.pkgs["reflect"]; rp != nil {
		p.rtypeT = types.NewPointer(rp.Type("rtype").Type())
	} else if rp := p.pkgs["internal/reflectlite"]; rp != nil {
		p.rtypeT = types.NewPointer(rp.Type("rtype").Type())
	}
	return p, nil
}

func (p *Program) runtimeError() types.Type { return p.rtErr }

func (p *Program) fn(pkg, name string) *ssa.Function {
	k := pkg + "." + name
	if f, ok := p.fns.Load(k); ok {
		return f.(*ssa.Function)
	}
	sp := p.pkgs[pkg]
	if sp == nil {
		panic(ctl{ctlUnsupported, "package not loaded: " + pkg})
	}
	f := sp.Func(name)
	if f == nil {
		panic(ctl{ctlUnsupported, "no function " + k})
	}
	p.fns.Store(k, f)
	return f
}

func (p *Program) encoded(fn *ssa.Function) {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return
	}
	p.encFuncs.Store(fn.String(), true)
}

func (p *Program) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	path := ""
	if pkg != nil {
		path = pkg.Path()
	}
	k := methodKey{t, path, name}
	p.mu.Lock()
	f, ok := p.methods[k]
	p.mu.Unlock()
	if ok {
		return f
	}
	sel := p.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel != nil {
		f = p.prog.MethodValue(sel)
	}
	p.mu.Lock()
	p.methods[k] = f
	p.mu.Unlock()
	return f
}

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	p.mu.Lock()
	defer p.mu.Unlock()
	if v, ok := p.impl[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	p.impl[k] = v
	return v
}

var opaquePrefixes = []string{"runtime", "os", "syscall", "net", "reflect", "time", "log", "crypto", "testing", "plugin", "embed", "io/fs", "path/filepath", "sync", "math/rand", "hash", "compress", "archive", "debug", "go"}

// opaquePkg: packages whose variables are not modelled.
func (p *Program) opaquePkg(pkg *ssa.Package) bool {
	if pkg == nil {
		return false
	}
	path := pkg.Pkg.Path()
	if v, ok := p.opq.Load(path); ok {
		return v.(bool)
	}
	r := false
	switch {
	case strings.HasPrefix(path, repoMod), strings.HasPrefix(path, harnessMod):
	case strings.HasPrefix(path, "internal/"):
		switch path {
		case "internal/strconv", "internal/bytealg", "internal/stringslite", "internal/itoa", "internal/byteorder":
		default:
			r = true
		}
	default:
		for _, o := range opaquePrefixes {
			if path == o || strings.HasPrefix(path, o+"/") {
				r = true
			}
		}
	}
	p.opq.Store(path, r)
	return r
}

// allowGlobal: package variables of opaque packages that are modelled; the
// locations and a constant table of package time (see Worker.global)
func (p *Program) allowGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || g.Pkg.Pkg.Path() != "time" {
		return false
	}
	switch g.Name() {
	case "utcLoc", "localLoc", "UTC", "Local", "std0x":
		return true
	}
	return false
}
