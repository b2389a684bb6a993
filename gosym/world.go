package main

import (
	"fmt"
	"go/types"
	"hash/crc32"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program.
type World struct {
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	models     map[string]*ssa.Function
	runtimeErr types.Type
	methods    sync.Map
	impls      sync.Map
	shMu       sync.Mutex
	shPkg      map[*ssa.Package]bool
	buildMu    sync.Mutex
}

type methKey struct {
	t types.Type
	m *types.Func
}

const zz = "zntr.io/solid/zzverif/"

// overlayFiles maps every harness file of dir to its place in the module of /repo.
func overlayFiles(hdir, repo string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(hdir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, path)
		if strings.HasPrefix(rel, "inpkg/") {
			// files that become part of a package of the repository
			rest := strings.TrimPrefix(rel, "inpkg/")
			m[filepath.Join(repo, filepath.Dir(rest), "zz_verif_"+filepath.Base(rest))] = path
			return nil
		}
		m[filepath.Join(repo, "zzverif", rel)] = path
		return nil
	})
	if err == nil {
		err = transplant(m, hdir, repo)
	}
	return m, err
}

// transplants are commands of the repository made importable: the same files as a package.
var transplants = map[string]string{"resourceserver": "examples/resourceserver"}

var mainClause = regexp.MustCompile(`(?m)^package main\b`)

func transplant(m map[string]string, hdir, repo string) error {
	for name, dir := range transplants {
		fs, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		to := filepath.Join(filepath.Dir(hdir), "bin", fmt.Sprintf("%s-%08x", name, crc32.ChecksumIEEE([]byte(repo))))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			if err := os.MkdirAll(to, 0o755); err != nil {
				return err
			}
			t := filepath.Join(to, filepath.Base(f))
			n := []byte(mainClause.ReplaceAllString(string(b), "package "+name))
			if old, err := os.ReadFile(t); err != nil || string(old) != string(n) {
				tmp := fmt.Sprintf("%s.%d", t, os.Getpid())
				if err := os.WriteFile(tmp, n, 0o644); err != nil {
					return err
				}
				if err := os.Rename(tmp, t); err != nil {
					return err
				}
			}
			m[filepath.Join(repo, "zzverif", name, filepath.Base(f))] = t
		}
	}
	return nil
}

func Load(repo, hdir, modfile string, patterns []string) (*World, error) {
	ov, err := overlayFiles(hdir, repo)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Overlay:    overlay,
		Env:        append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
		BuildFlags: []string{"-modfile=" + modfile, "-tags=verif,gosym"},
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 10 {
				errs = append(errs, p.PkgPath+": "+e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, models: map[string]*ssa.Function{}, shPkg: map[*ssa.Package]bool{}}
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	rt := w.pkgs["runtime"]
	if rt == nil {
		return nil, fmt.Errorf("runtime not loaded")
	}
	w.runtimeErr = rt.Type("errorString").Type()
	if mp := w.pkgs[zz+"models"]; mp != nil {
		mp.Build()
		if err := w.loadModels(mp); err != nil {
			return nil, err
		}
	}
	for path, mp := range w.pkgs { // a harness may bring models of its own
		if strings.HasPrefix(path, zz+"p/") {
			mp.Build()
			if err := w.loadModels(mp); err != nil {
				return nil, err
			}
		}
	}
	return w, nil
}

// loadModels reads the "Models" registration: functions named by a //gosym:replace comment.
func (w *World) loadModels(mp *ssa.Package) error {
	for name, m := range mp.Members {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		syn := fn.Syntax()
		_ = name
		if syn == nil {
			continue
		}
		if d := docOf(syn); d != "" {
			for _, l := range strings.Split(d, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "gosym:replace ") {
					w.models[strings.TrimSpace(strings.TrimPrefix(l, "gosym:replace "))] = fn
				}
			}
		}
	}
	return nil
}

func (w *World) build(fn *ssa.Function) {
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg != nil {
		w.buildMu.Lock()
		defer w.buildMu.Unlock()
		pkg.Build()
	}
}

// notShared are standard packages whose variables paths may change.
var notShared = map[string]bool{"math/rand": true, "net/http": true, "os": true, "crypto/rand": true, "time": true, "context": true, "sync": true, "log": true}

func (w *World) sharedPkg(pkg *ssa.Package) bool {
	if pkg == nil {
		return false
	}
	w.shMu.Lock()
	defer w.shMu.Unlock()
	if v, ok := w.shPkg[pkg]; ok {
		return v
	}
	path := pkg.Pkg.Path()
	first, _, _ := strings.Cut(path, "/")
	v := !strings.Contains(first, ".") && !notShared[path] || strings.HasPrefix(path, "zntr.io/solid/api/")
	w.shPkg[pkg] = v
	return v
}

func (w *World) skipInit(pkg *ssa.Package) bool {
	switch pkg.Pkg.Path() {
	case "runtime", "os", "syscall", "internal/cpu", "internal/godebug", "net", "crypto/rand", "internal/poll":
		return true
	}
	// the protobuf runtime is modelled
	path := pkg.Pkg.Path()
	return strings.HasPrefix(path, "google.golang.org/protobuf/") || strings.HasPrefix(path, "buf.build/gen/")
}

func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if v, ok := w.methods.Load(k); ok {
		return v.(*ssa.Function)
	}
	w.buildMu.Lock()
	defer w.buildMu.Unlock()
	sel := w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := w.prog.MethodValue(sel)
	w.methods.Store(k, f)
	return f
}

func (w *World) methodByName(t types.Type, name string) *ssa.Function {
	w.buildMu.Lock()
	defer w.buildMu.Unlock()
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *World) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := w.impls.Load(k); ok {
		return v.(bool)
	}
	m, _ := types.MissingMethod(t, it, true)
	r := m == nil
	w.impls.Store(k, r)
	return r
}

// typeOf finds a named type of a loaded package.
func (w *World) typeOf(pkg, name string) types.Type {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}
