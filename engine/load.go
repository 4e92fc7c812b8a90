package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const rtPath = "github.com/coveooss/gotemplate/v3/verifrt"
const modPath = "github.com/coveooss/gotemplate/v3"

// Program is the loaded SSA program shared by the workers.
type Program struct {
	prog      *ssa.Program
	byPath    map[string]*ssa.Package
	mu        sync.Mutex
	codes     sync.Map // *ssa.Function -> *fnCode
	harness   map[string]*ssa.Function
	rtypes    typeutil.Map
	rtMu      sync.Mutex
	methods   sync.Map
	overlay   map[string][]byte
	imports   map[*ssa.Package][]*ssa.Package
	errString types.Type
	rtypePtr  types.Type
	errorsStr types.Type
	byteSlice types.Type
	dropped   []string
	initSeen  sync.Map
	raceFree  sync.Map
	encoded   sync.Map // names of functions actually executed
}

// overlayFiles maps the harness tree onto /repo: harness/<dir>/x.go -> /repo/<dir>/zz_verif_x.go, harness/root/... -> /repo.
func overlayFiles(verif, repo string) (map[string]string, error) {
	out := map[string]string{}
	base := filepath.Join(verif, "harness")
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(base, p)
		dir, file := filepath.Split(rel)
		dir = filepath.Clean(dir)
		if dir == "root" {
			dir = "."
		}
		name := "zz_verif_" + file
		if dir == "verifrt" {
			name = file
		}
		out[filepath.Join(repo, dir, name)] = p
		return nil
	})
	return out, err
}

func load(verif, repo string) (*Program, error) {
	ov, err := overlayFiles(verif, repo)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
	}
	var roots []*packages.Package
	var dropped []string
	for try := 0; ; try++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, Env: append(os.Environ(), "CGO_ENABLED=0")}
		roots, err = packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		nerr := 0
		bad := map[string]bool{}
		packages.Visit(roots, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				if nerr < 10 {
					fmt.Fprintln(os.Stderr, "load:", e)
				}
				nerr++
				for dst := range overlay {
					if strings.HasPrefix(e.Pos, dst+":") && !strings.HasSuffix(dst, "_util.go") {
						bad[dst] = true
					}
				}
			}
		})
		if nerr == 0 {
			break
		}
		if len(bad) == 0 || try > 6 {
			return nil, fmt.Errorf("%d load errors", nerr)
		}
		// a harness that does not compile against this tree (renamed internals) is left out; the others still decide
		for dst := range bad {
			delete(overlay, dst)
			dropped = append(dropped, ov[dst])
		}
	}
	prog, _ := ssautil.AllPackages(roots, ssa.InstantiateGenerics)
	p := &Program{dropped: dropped, prog: prog, byPath: map[string]*ssa.Package{}, harness: map[string]*ssa.Function{}, overlay: overlay, imports: map[*ssa.Package][]*ssa.Package{}}
	for _, pk := range prog.AllPackages() {
		p.byPath[pk.Pkg.Path()] = pk
	}
	for _, pk := range prog.AllPackages() {
		for _, i := range pk.Pkg.Imports() {
			if q := p.byPath[i.Path()]; q != nil {
				p.imports[pk] = append(p.imports[pk], q)
			}
		}
		if strings.HasPrefix(pk.Pkg.Path(), modPath) {
			for n, m := range pk.Members {
				if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Verif_") && f.Signature.Params().Len() == 0 {
					p.harness[n] = f
				}
			}
		}
	}
	rt := p.byPath["runtime"]
	p.errString = rt.Type("errorString").Object().Type()
	p.rtypePtr = types.NewPointer(p.byPath["reflect"].Type("rtype").Object().Type())
	p.errorsStr = types.NewPointer(p.byPath["errors"].Type("errorString").Object().Type())
	p.byteSlice = types.NewSlice(types.Typ[types.Byte])
	return p, nil
}

func (p *Program) harnessNames(prefix string) []string {
	var r []string
	for n := range p.harness {
		if strings.HasPrefix(n, prefix) {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}

// rtype returns the canonical reflect type object.
func (p *Program) rtype(t types.Type) *RType {
	p.rtMu.Lock()
	defer p.rtMu.Unlock()
	t = types.Unalias(t)
	if r := p.rtypes.At(t); r != nil {
		return r.(*RType)
	}
	r := &RType{t: t}
	p.rtypes.Set(t, r)
	return r
}

// lookupMethod finds the concrete method of a dynamic type.
func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	type key struct {
		t types.Type
		m string
	}
	k := key{t, m.Id()}
	if f, ok := p.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := p.prog.MethodValue(sel)
	if f != nil {
		p.methods.Store(k, f)
	}
	return f
}

func (p *Program) methodSet(t types.Type) *types.MethodSet {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.prog.MethodSets.MethodSet(t)
}

func (p *Program) methodValue(sel *types.Selection) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.prog.MethodValue(sel)
}
