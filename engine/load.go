package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/dusk-network/dusk-crypto"
const ndPath = repoModule + "/internal/verifnd"

// Program is the SSA form of /repo's current tree plus the harness files of one property.
type Program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	repoPkgs []*ssa.Package
	errType  types.Type
	mu       sync.Mutex
	infos    sync.Map // *ssa.Function -> *fnInfo
	closed   map[*chanv]bool
	dropped  map[string]string // harness file -> reason
	overlay  map[string]string // /repo path -> source file
	methods  sync.Map
}

func z3Path() string {
	if p := os.Getenv("VERIF_Z3"); p != "" {
		return p
	}
	for _, n := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return "z3"
}

// workDir is a scratch directory holding copies of go.mod and go.sum (so that /repo's stay as they are).
func prepareMod(repo, work string) error {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			if f == "go.sum" {
				continue
			}
			return err
		}
		if err := os.WriteFile(filepath.Join(work, f), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func goEnv(work string) []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOSUMDB=") || strings.HasPrefix(e, "GONOSUMDB=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=mod -modfile="+filepath.Join(work, "go.mod"), "GOPROXY=off", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOSUMDB=off")
}

// harnessFiles maps overlay paths in /repo to the harness sources for the given packages.
func harnessFiles(repo, hdir string, pkgs []string) (map[string]string, error) {
	ov := map[string]string{}
	for _, p := range pkgs {
		fs, err := filepath.Glob(filepath.Join(hdir, p, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			ov[filepath.Join(repo, p, "zz_verif_"+filepath.Base(f))] = f
		}
	}
	ov[filepath.Join(repo, "internal/verifnd/nd.go")] = filepath.Join(hdir, "verifnd/nd.go")
	return ov, nil
}

func writeOverlay(path string, ov map[string]string) error {
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": ov}, "", " ")
	return os.WriteFile(path, b, 0o644)
}

// load type-checks the packages with the harness files; harness files that do not type-check are left out.
func load(repo, hdir, work string, pkgs []string) (*Program, error) {
	if err := prepareMod(repo, work); err != nil {
		return nil, err
	}
	ov, err := harnessFiles(repo, hdir, pkgs)
	if err != nil {
		return nil, err
	}
	P := &Program{pkgs: map[string]*ssa.Package{}, closed: map[*chanv]bool{}, dropped: map[string]string{}}
	var initial []*packages.Package
	for try := 0; try < 4; try++ {
		content := map[string][]byte{}
		for dst, src := range ov {
			b, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			content[dst] = b
		}
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     repo,
			Env:     goEnv(work),
			Overlay: content,
		}
		var pats []string
		for _, p := range pkgs {
			pats = append(pats, "./"+p)
		}
		pats = append(pats, ndPath)
		initial, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := false
		var fatal []string
		packages.Visit(initial, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				file := e.Pos
				if i := strings.Index(file, ".go:"); i >= 0 {
					file = file[:i+3]
				}
				if _, ok := ov[file]; ok && !strings.HasSuffix(file, "nd.go") {
					P.dropped[ov[file]] = e.Msg
					delete(ov, file)
					bad = true
					continue
				}
				if _, seen := P.dropped[file]; !seen && strings.HasPrefix(p.PkgPath, repoModule) {
					fatal = append(fatal, e.Error())
				}
			}
		})
		if bad {
			continue
		}
		if len(fatal) > 0 {
			return nil, fmt.Errorf("%s", strings.Join(fatal, "; "))
		}
		break
	}
	P.overlay = ov
	prog, spkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	_ = spkgs
	P.prog = prog
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
		if strings.HasPrefix(p.Pkg.Path(), repoModule) && p.Pkg.Path() != ndPath {
			p.Build()
		}
	}
	// repository packages in dependency order
	seen := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if seen[t] || !strings.HasPrefix(t.Path(), repoModule) {
			return
		}
		seen[t] = true
		imps := append([]*types.Package(nil), t.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if sp := P.pkgs[t.Path()]; sp != nil && t.Path() != ndPath {
			P.repoPkgs = append(P.repoPkgs, sp)
		}
	}
	for _, p := range initial {
		visit(p.Types)
	}
	ep := P.pkgs["errors"]
	if ep == nil {
		return nil, fmt.Errorf("package errors not loaded")
	}
	ep.Build()
	P.errType = types.NewPointer(ep.Type("errorString").Type())
	return P, nil
}

func (P *Program) build(fn *ssa.Function) {
	P.mu.Lock()
	defer P.mu.Unlock()
	if fn.Pkg != nil {
		fn.Pkg.Build()
		return
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

type methodKey struct {
	t string
	n string
}

func (P *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	P.mu.Lock()
	defer P.mu.Unlock()
	return P.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (P *Program) closedChan(c *chanv) bool {
	P.mu.Lock()
	defer P.mu.Unlock()
	return P.closed[c]
}

func (P *Program) closeChan(c *chanv) {
	P.mu.Lock()
	P.closed[c] = true
	P.mu.Unlock()
}

// harness finds a harness function.
func (P *Program) harness(pkg, name string) *ssa.Function {
	p := P.pkgs[repoModule+"/"+pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}
