package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const goRoot = "/opt/veriftools/go1.24.13/bin"

type Engine struct {
	repo, verif, prop, tier, modPath string
	seed                             int
	verbose                          bool
	prog                             *ssa.Program
	sizes                            types.Sizes
	redirects                        map[string]*ssa.Function
	rtErr                            types.Type
	workers, maxSteps                int
	solverTimeoutMs                  int
	deadline                         time.Time
	harnesses                        []*Harness
	qmu                              sync.Mutex
	qcond                            *sync.Cond
	fmu                              sync.Mutex
	funcs                            map[*ssa.Function]bool
	queries, nsat, nunsat, nunk      int
	solverTime, maxQ                 time.Duration
	solverErrs                       []string
	notes                            map[string]int
	pkgByPath                        map[string]*ssa.Package
	overlayFile                      string
	scratch                          string
	methMu                           sync.Mutex
	methTab                          map[types.Type]map[string]*ssa.Function
	placeholder                      types.Type
	only                             string
	start                            time.Time
}

func goEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "PATH=") || strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOROOT=") || strings.HasPrefix(kv, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "PATH="+goRoot+":/usr/local/bin:/usr/bin:/bin", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

// overlay maps harness files into the repository's module under vxh/.
func (e *Engine) overlay() (map[string]string, error) {
	r := map[string]string{}
	add := func(dir, as string) error {
		fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			return err
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_inpkg.go") {
				continue
			}
			r[filepath.Join(e.repo, "vxh", as, filepath.Base(f))] = f
		}
		return nil
	}
	h := filepath.Join(e.verif, "harness")
	for _, d := range []string{"vx", "vxm", "vxf", "vxs"} {
		if err := add(filepath.Join(h, d), d); err != nil {
			return nil, err
		}
	}
	if err := add(filepath.Join(h, e.prop), e.prop); err != nil {
		return nil, err
	}
	// the main package, as one that can be imported
	if mains, err := e.mainPackage(h); err != nil {
		return nil, err
	} else {
		for k, f := range mains {
			r[k] = f
		}
	}
	// files placed inside a package of the repository: first line "//vx:inpkg <dir>"
	fs, _ := filepath.Glob(filepath.Join(h, "inpkg", "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		l, _, _ := strings.Cut(string(b), "\n")
		if d, ok := strings.CutPrefix(l, "//vx:inpkg "); ok {
			r[filepath.Join(e.repo, strings.TrimSpace(d), "zz_vx_"+filepath.Base(f))] = f
		}
	}
	return r, nil
}

var mainClause = regexp.MustCompile(`(?m)^package main\b`)

// mainPackage copies the repository's main package to vxh/fdomain, where harnesses can import it, when one does.
// Main is its main function; a fatal error panics instead of ending the process.
func (e *Engine) mainPackage(h string) (map[string]string, error) {
	used := false
	hs, _ := filepath.Glob(filepath.Join(h, e.prop, "*.go"))
	for _, f := range hs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		used = used || strings.Contains(string(b), "/vxh/fdomain\"")
	}
	r := map[string]string{}
	if !used {
		return r, nil
	}
	src, _ := filepath.Glob(filepath.Join(e.repo, "*.go"))
	put := func(name, text string) error {
		f := filepath.Join(e.scratch, "main_"+name)
		r[filepath.Join(e.repo, "vxh", "fdomain", name)] = f
		return os.WriteFile(f, []byte(text), 0o644)
	}
	for _, f := range src {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		t := mainClause.ReplaceAllString(string(b), "package fdomain")
		t = strings.ReplaceAll(t, "log.Fatal", "log.Panic")
		if err := put(filepath.Base(f), t); err != nil {
			return nil, err
		}
	}
	return r, put("zz_vx.go", "package fdomain\n\nfunc Main() { main() }\n")
}

func (e *Engine) load() error {
	ov, err := e.overlay()
	if err != nil {
		return err
	}
	mod, err := os.ReadFile(filepath.Join(e.repo, "go.mod"))
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(mod), "\n") {
		if s, ok := strings.CutPrefix(l, "module "); ok {
			e.modPath = strings.TrimSpace(s)
			break
		}
	}
	// main for the replay binary
	names := harnessNames(ov, filepath.Join(e.repo, "vxh", e.prop))
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"" + e.modPath + "/vxh/vx\"\n\nfunc main() {\n\tvx.Main(map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	mf := filepath.Join(e.scratch, "zz_main.go")
	if err := os.WriteFile(mf, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	ov[filepath.Join(e.repo, "vxh", e.prop, "zz_main.go")] = mf
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	e.overlayFile = filepath.Join(e.scratch, "overlay.json")
	if err := os.WriteFile(e.overlayFile, oj, 0o644); err != nil {
		return err
	}
	pov := map[string][]byte{}
	for k, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		pov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: e.repo, Env: goEnv(), Overlay: pov,
		BuildFlags: []string{"-tags=math_big_pure_go,purego"}}
	ps, err := packages.Load(cfg, "./vxh/"+e.prop, "./vxh/vxm")
	if err != nil {
		return err
	}
	nerr := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			if nerr < 10 {
				fmt.Fprintln(os.Stderr, "load:", x)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return fmt.Errorf("%d package errors", nerr)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.sizes = types.SizesFor("gc", "amd64")
	e.pkgByPath = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgByPath[p.Pkg.Path()] = p
	}
	if rt := e.pkgByPath["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			e.rtErr = t.Type()
		}
	}
	// redirects
	e.redirects = map[string]*ssa.Function{}
	vxm := e.pkgByPath[e.modPath+"/vxh/vxm"]
	fs, _ := filepath.Glob(filepath.Join(e.verif, "harness", "vxm", "*.go"))
	for _, f := range fs {
		fh, err := os.Open(f)
		if err != nil {
			return err
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(nil, 1<<20)
		var pend []string
		for sc.Scan() {
			l := sc.Text()
			if s, ok := strings.CutPrefix(l, "//vx:redirect "); ok {
				pend = append(pend, strings.TrimSpace(s))
			} else if s, ok := strings.CutPrefix(l, "func "); ok && len(pend) > 0 {
				n := s[:strings.IndexAny(s, "([")]
				fn := vxm.Func(n)
				if fn == nil {
					return fmt.Errorf("vxm redirect target %s missing", n)
				}
				for _, x := range pend {
					e.redirects[strings.ReplaceAll(x, "MOD/", e.modPath+"/")] = fn
				}
				pend = nil
			}
		}
		fh.Close()
	}
	// harnesses
	hp := e.pkgByPath[e.modPath+"/vxh/"+e.prop]
	for _, n := range names {
		if e.only != "" && !strings.Contains(n, e.only) {
			continue
		}
		fn := hp.Func(n)
		if fn == nil {
			return fmt.Errorf("harness %s not found", n)
		}
		e.harnesses = append(e.harnesses, &Harness{name: n, fn: fn, reasons: map[string]int{}, asserts: map[string]*assertStat{}, reach: map[string]int{}, expect: map[string]bool{}, bounds: map[string]int64{}, assumptions: map[string]bool{}})
	}
	if len(e.harnesses) == 0 {
		return fmt.Errorf("no harness in %s", e.prop)
	}
	if vp := e.pkgByPath[e.modPath+"/vxh/vx"]; vp != nil {
		e.placeholder = vp.Type("Native").Type()
	}
	e.initNatives()
	return nil
}

func harnessNames(ov map[string]string, dir string) []string {
	var names []string
	for k, f := range ov {
		if filepath.Dir(k) != dir {
			continue
		}
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if s, ok := strings.CutPrefix(l, "func H_"); ok {
				names = append(names, "H_"+s[:strings.IndexByte(s, '(')])
			}
		}
	}
	sort.Strings(names)
	return names
}

func (e *Engine) isRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Parent() != nil {
		p = fn.Parent().Pkg
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), e.modPath) && !strings.Contains(p.Pkg.Path(), "/vxh/")
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	e.methMu.Lock()
	defer e.methMu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// typeByName finds a named type such as "crypto/ecdsa.PublicKey".
func (e *Engine) typeByName(path, name string) types.Type {
	p := e.pkgByPath[path]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
