package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/chemikadze/asn1go"

type Harness struct {
	name    string
	fn      *ssa.Function
	part    int
	pkgDir  string // e.g. "." or "cmd/asn1go"
	bound   string
	reaches []string
	tier    string // "", "thorough"
	replace map[string]*ssa.Function
	steps   int64
	weight  int
}

type Engine struct {
	repo, verif, scratch string
	tier                 int
	dump                 *os.File
	prog                 *ssa.Program
	fset                 *token.FileSet
	pkgs                 []*packages.Package
	types                TypeReg
	implMu               sync.Mutex
	rtPkg                *ssa.Package
	rtErrType            *RType
	byteType, runeType, intType, uint64Type,
	f64Type, boolType *RType
	repl       map[string]*ssa.Function
	harnesses  []*Harness
	initOrder  []*ssa.Package
	q          *queue
	stop       atomic.Bool
	debug      bool
	debugTrace bool
	pureAlloc  map[*ssa.Function]bool // pure functions with local variables (search loops): merged for one-variable arguments only
	crossCheck bool
	overlay    map[string]string // virtual -> real, for native builds
	gocfg      []string
	constGlob  map[*ssa.Global]bool
	pureMu     sync.Mutex
	pureMemo   map[*ssa.Function]int

	mu         sync.Mutex
	violations []*Violation
	vioCount   map[string]int
	unsup      string
	unsupN     int
	known      []knownFinding
	knownSeen  map[string]int
	curProp    string
	reached    map[string]int64
	asserts    map[string]int64
	samples    []PathSample
	pathsSeen  int64
	cur        *Harness
	buildTime  time.Duration
	maxPaths   int64
	deadline   time.Time
	workers    int
	sampleN    int
}

type Violation struct {
	Kind    string  `json:"kind"`
	Harness string  `json:"harness"`
	Part    int     `json:"part"`
	Msg     string  `json:"msg"`
	Inputs  []Input `json:"inputs"`
	Obs     []Obs   `json:"obs,omitempty"`
	pkgDir  string
}

type PathSample struct {
	h      *Harness
	inputs []Input
	obs    []Obs
	stop   bool
}

var rtReplace = map[string]string{
	"fmt.Sprintf": "Sprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln", "fmt.Errorf": "Errorf",
	"fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln",
	"fmt.Printf": "Printf", "fmt.Print": "Print", "fmt.Println": "Println",
	"fmt.Appendf": "Appendf", "fmt.Append": "Append", "fmt.Appendln": "Appendln",
	"(*sync.Pool).Get": "PoolGet", "errors.Is": "ErrorsIs", "errors.As": "ErrorsAs",
	"internal/strconv.small": "Small", "internal/strconv.numDigits": "NumDigits", "internal/strconv.formatBase10": "FormatBase10",
	"sort.Slice": "SortSlice", "sort.SliceStable": "SortSlice", "sort.SliceIsSorted": "SortSliceIsSorted",
}

func (e *Engine) replaced(fn *ssa.Function) *ssa.Function {
	name := fn.String()
	if e.cur != nil {
		if r, ok := e.cur.replace[name]; ok {
			return r
		}
	}
	return e.repl[name]
}

func (w *W) rtFn(name string) *Callee {
	c, ok := w.rtc[name]
	if !ok {
		c = w.callee(w.e.rtPkg.Func(name))
		w.rtc[name] = c
	}
	return c
}

func goEnv(extra ...string) []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GO111MODULE", "CGO_ENABLED":
			continue
		}
		env = append(env, kv)
	}
	return append(env, append([]string{"GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED=0"}, extra...)...)
}

func fileSHA(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return ""
	}
	return fmt.Sprintf("%x", sha256.Sum256(b))
}

// grammarOverlay mirrors the repository's build: a grammar edited without its
// generated parser is regenerated into an overlay.
func (e *Engine) grammarOverlay() error {
	base := "/opt/vp/base"
	read := func(n string) string {
		b, _ := os.ReadFile(filepath.Join(base, n+".sha256"))
		return strings.Fields(string(b) + " -")[0]
	}
	y, g := filepath.Join(e.repo, "asn1.y"), filepath.Join(e.repo, "y.go")
	if fileSHA(y) == "" || fileSHA(g) == "" {
		return nil
	}
	if fileSHA(y) == read("asn1.y") || fileSHA(g) != read("y.go") {
		return nil
	}
	out := filepath.Join(e.scratch, "y.go")
	cmd := exec.Command("/opt/vp/bin/goyacc", "-o", out, "-v", filepath.Join(e.scratch, "y.output"), "asn1.y")
	cmd.Dir = e.repo
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("goyacc: %v: %s", err, b)
	}
	e.overlay[g] = out
	return nil
}

// sharedFiles are harness files that are part of every package.
func (e *Engine) sharedFiles(pkg string) (map[string][]byte, error) {
	r := map[string][]byte{}
	for _, dir := range []string{"shared", "shared_" + pkg} {
		hd := filepath.Join(e.verif, "harness", dir)
		ents, _ := os.ReadDir(hd)
		for _, x := range ents {
			if !strings.HasSuffix(x.Name(), ".go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(hd, x.Name()))
			if err != nil {
				return nil, err
			}
			r[x.Name()] = []byte(strings.Replace(string(b), "package shared", "package "+pkg, 1))
		}
	}
	return r, nil
}

// load builds SSA for the target packages plus the harness overlay of property id.
func (e *Engine) load(prop string) error {
	t0 := time.Now()
	e.overlay = map[string]string{}
	for _, f := range []string{"mod", "sum"} {
		b, err := os.ReadFile(filepath.Join(e.repo, "go."+f))
		if err == nil {
			if err := os.WriteFile(filepath.Join(e.scratch, "repo."+f), b, 0644); err != nil {
				return err
			}
		}
	}
	e.gocfg = goEnv("GOFLAGS=-mod=mod -modfile=" + filepath.Join(e.scratch, "repo.mod"))
	if err := e.grammarOverlay(); err != nil {
		return err
	}
	ov := map[string][]byte{}
	for v, r := range e.overlay {
		b, err := os.ReadFile(r)
		if err != nil {
			return err
		}
		ov[v] = b
	}
	b, err := os.ReadFile(filepath.Join(e.verif, "engine/rt/rt.go"))
	if err != nil {
		return err
	}
	ov[filepath.Join(e.repo, "internal/zzrt/rt.go")] = b
	shim, err := os.ReadFile(filepath.Join(e.verif, "engine/shim_engine.go.txt"))
	if err != nil {
		return err
	}
	patterns := []string{"./internal/zzrt", "."}
	dirs := harnessDirs
	lp := strings.ToLower(prop)
	var hfiles = map[string][]string{}
	for dir, pkg := range dirs {
		hd := filepath.Join(e.verif, "harness", pkg.dir)
		ents, _ := os.ReadDir(hd)
		var files []string
		has := false
		for _, x := range ents {
			n := x.Name()
			if !strings.HasSuffix(n, ".go") {
				continue
			}
			if strings.HasPrefix(n, "common") {
				files = append(files, n)
			} else if strings.HasPrefix(n, lp+"_") || n == lp+".go" {
				files = append(files, n)
				has = true
			}
		}
		if !has {
			continue
		}
		if dir != "." {
			patterns = append(patterns, "./"+dir)
		}
		shared, err := e.sharedFiles(pkg.name)
		if err != nil {
			return err
		}
		for n, src := range shared {
			ov[filepath.Join(e.repo, dir, "zz_verif_"+n)] = src
		}
		for _, n := range files {
			b, err := os.ReadFile(filepath.Join(hd, n))
			if err != nil {
				return err
			}
			ov[filepath.Join(e.repo, dir, "zz_verif_"+n)] = b
			hfiles[dir] = append(hfiles[dir], filepath.Join(hd, n))
		}
		ov[filepath.Join(e.repo, dir, "zz_verif_shim.go")] = []byte(strings.Replace(string(shim), "package PKG", "package "+pkg.name, 1))
	}
	if len(hfiles) == 0 {
		return fmt.Errorf("no harness for %s", prop)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: e.repo, Env: e.gocfg, Overlay: ov, BuildFlags: []string{"-tags=math_big_pure_go,purego"}}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e.prog, e.pkgs, e.fset = prog, pkgs, prog.Fset
	e.repl = map[string]*ssa.Function{}
	for i, sp := range spkgs {
		if sp == nil {
			return fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		if strings.HasSuffix(sp.Pkg.Path(), "internal/zzrt") {
			e.rtPkg = sp
		}
	}
	for k, v := range rtReplace {
		f := e.rtPkg.Func(v)
		if f == nil {
			return fmt.Errorf("rt function %s missing", v)
		}
		e.repl[k] = f
	}
	e.rtErrType = e.types.get(e.rtPkg.Type("RuntimeError").Type())
	e.byteType = e.types.get(types.Typ[types.Uint8])
	e.runeType = e.types.get(types.Typ[types.Int32])
	e.intType = e.types.get(types.Typ[types.Int])
	e.uint64Type = e.types.get(types.Typ[types.Uint64])
	e.f64Type = e.types.get(types.Typ[types.Float64])
	e.boolType = e.types.get(types.Typ[types.Bool])
	e.pureMemo = map[*ssa.Function]int{}
	e.pureAlloc = map[*ssa.Function]bool{}
	// harness functions
	reDir := regexp.MustCompile(`(?m)^//\s*verif:(\w+)\s*(.*)$`)
	for i, p := range pkgs {
		repl := map[string]*ssa.Function{}
		var hs []*Harness
		for _, f := range p.Syntax {
			fn := e.fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fn), "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				doc := ""
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						doc += c.Text + "\n"
					}
				}
				sf := spkgs[i].Func(fd.Name.Name)
				parts := 1
				h := &Harness{name: fd.Name.Name, fn: sf}
				for _, m := range reDir.FindAllStringSubmatch(doc, -1) {
					switch m[1] {
					case "replace":
						repl[strings.TrimSpace(m[2])] = sf
					case "bound":
						h.bound += strings.TrimSpace(m[2]) + " "
					case "reach":
						h.reaches = append(h.reaches, strings.Fields(m[2])...)
					case "parts":
						fmt.Sscan(m[2], &parts)
					case "tier":
						h.tier = strings.TrimSpace(m[2])
					case "steps":
						fmt.Sscan(m[2], &h.steps)
					}
				}
				if strings.HasPrefix(fd.Name.Name, "Verif"+prop) {
					h.replace = repl
					rel, _ := filepath.Rel(e.repo, filepath.Dir(fn))
					h.pkgDir = rel
					for k := 0; k < parts; k++ {
						hh := *h
						hh.part = k
						hs = append(hs, &hh)
					}
				}
			}
		}
		e.harnesses = append(e.harnesses, hs...)
	}
	sort.SliceStable(e.harnesses, func(i, j int) bool { return e.harnesses[i].name < e.harnesses[j].name })
	if len(e.harnesses) == 0 {
		return fmt.Errorf("no harness functions Verif%s*", prop)
	}
	e.initOrder = nil
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := prog.Package(p); sp != nil {
			e.initOrder = append(e.initOrder, sp)
		}
	}
	for _, sp := range spkgs {
		visit(sp.Pkg)
	}
	e.computeConstGlobals()
	e.buildTime = time.Since(t0)
	return nil
}

type hdir struct{ dir, name string }

var harnessDirs = map[string]hdir{
	".":              {"asn1go", "asn1go"},
	"cmd/asn1go":     {"cmdasn1go", "main"},
	"cmd/ws2bin":     {"cmdws2bin", "main"},
	"internal/utils": {"utils", "utils"},
}

func (e *Engine) isTarget(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	if !strings.HasPrefix(p, modPath) || fn.Pkg == e.rtPkg {
		return false
	}
	return !strings.Contains(e.fset.Position(fn.Pos()).Filename, "zz_verif_")
}

var skipInitPkgs = map[string]bool{
	"runtime": true, "errors": true, "reflect": true, "syscall": true, "os": true, "unsafe": true, "encoding/asn1": true, "math/rand": true, "testing": true, "sync": true, "sync/atomic": true, "unique": true, "weak": true, "iter": true, "crypto": true, "net": true, "internal/bytealg": true, "log": true, "encoding/binary": true, "regexp": false, "io/fs": false, "math/rand/v2": true,
}

func skipInit(path string) bool {
	if v, ok := skipInitPkgs[path]; ok {
		return v
	}
	if path == "internal/oserror" || path == "internal/itoa" || path == "internal/strconv" || path == "internal/stringslite" {
		return false
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "net/") || strings.HasPrefix(path, "os/")
}

// computeConstGlobals finds globals of the target packages that are only
// written by initializers, so that reading them is pure.
func (e *Engine) computeConstGlobals() {
	e.constGlob = map[*ssa.Global]bool{}
	written := map[*ssa.Global]bool{}
	fns := ssautil.AllFunctions(e.prog)
	for fn := range fns {
		if fn.Pkg == nil {
			continue
		}
		path := fn.Pkg.Pkg.Path()
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					if ld, ok := in.(*ssa.UnOp); ok && !isInit {
						// a map or slice loaded from a global and then written
						if g, ok := ld.X.(*ssa.Global); ok && ld.Referrers() != nil {
							for _, r := range *ld.Referrers() {
								switch r.(type) {
								case *ssa.MapUpdate, *ssa.Store:
									written[g] = true
								}
							}
						}
					}
				case *ssa.Store:
					if !isInit {
						if g, ok := rootGlobal(in.Addr); ok {
							written[g] = true
						}
					}
					if g, ok := in.Val.(*ssa.Global); ok {
						written[g] = true
					}
				default:
					if isInit {
						continue
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							written[g] = true
						}
					}
				}
			}
		}
	}
	for _, p := range e.prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				path := p.Pkg.Path()
				if strings.HasPrefix(path, modPath) {
					e.constGlob[g] = !written[g]
				} else {
					switch path {
					case "unicode", "unicode/utf8", "strings", "bytes", "strconv", "math/bits", "go/token":
						e.constGlob[g] = true
					}
				}
			}
		}
	}
}

func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x, true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return nil, false
		}
	}
}

// pureFn: no writes visible outside, no reads of mutable globals.
func (e *Engine) pureFn(fn *ssa.Function, depth int) bool {
	e.pureMu.Lock()
	defer e.pureMu.Unlock()
	return e.pure1(fn, 0)
}

func (e *Engine) pure1(fn *ssa.Function, depth int) bool {
	if r, ok := e.pureMemo[fn]; ok {
		return r != 0
	}
	if depth > 12 || len(fn.Blocks) == 0 || fn.Recover != nil || len(fn.FreeVars) > 0 {
		return false
	}
	if e.repl[fn.String()] != nil {
		return false
	}
	e.pureMemo[fn] = 0 // recursive functions are not merged
	ok := true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Index, *ssa.Field, *ssa.Extract, *ssa.Slice:
				for _, op := range in.Operands(nil) {
					if g, isg := (*op).(*ssa.Global); isg && !e.constGlob[g] {
						ok = false
					}
				}
			case *ssa.Lookup:
			case *ssa.Alloc:
				ok = !in.Heap
				e.pureAlloc[fn] = true
			case *ssa.Store:
				ok = localAddr(in.Addr)
			case *ssa.UnOp:
				if g, isg := in.X.(*ssa.Global); isg && !e.constGlob[g] {
					ok = false
				}
			case *ssa.Call:
				if bi, isb := in.Call.Value.(*ssa.Builtin); isb {
					switch bi.Name() {
					case "len", "cap", "min", "max":
						continue
					}
					ok = false
				} else if f := in.Call.StaticCallee(); f != nil {
					if _, nat := natives[f.String()]; nat {
						ok = false
					} else if !e.pure1(f, depth+1) {
						ok = false
					} else if e.pureAlloc[f] {
						e.pureAlloc[fn] = true
					}
				} else {
					ok = false
				}
			default:
				ok = false
			}
			if !ok {
				if e.debug && os.Getenv("DBGPURE") != "" {
					fmt.Fprintln(os.Stderr, "impure", fn, in, fmt.Sprintf("%T", in))
				}
				break
			}
		}
	}
	if ok {
		e.pureMemo[fn] = 1
	}
	return ok
}

// localAddr: the address is inside a non-escaping local variable.
func localAddr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return !v.Heap
	case *ssa.FieldAddr:
		return localAddr(v.X)
	case *ssa.IndexAddr:
		_, arr := v.X.Type().Underlying().(*types.Pointer)
		return arr && localAddr(v.X)
	}
	return false
}

func (e *Engine) newWorker(id int) *W {
	w := &W{e: e, id: id, tt: newTermTab(), callees: map[*ssa.Function]*Callee{}, codes: map[*ssa.Function]*Code{}, globals: map[*ssa.Global]*Value{}, rtc: map[string]*Callee{}, digits: map[digitsKey][]*Term{}, merge: map[string]*Term{}, qcache: map[string]qres{}, fnSeen: map[*Code]int64{}, stepLimit: 1 << 60, maxDepth: 1500, deadline: e.deadline}
	w.sol = newSolver("z3", 60000)
	if id == 0 && e.dump != nil {
		w.sol.dump = e.dump
	}
	if e.crossCheck {
		w.xsol = newSolver("cvc5", 60000)
	}
	w.ctx = &pathCtx{mvalid: true}
	return w
}

// runInits executes the package initializers concretely.
func (w *W) runInits() {
	w.initMode = true
	for _, p := range w.e.initOrder {
		if skipInit(p.Pkg.Path()) {
			continue
		}
		w.runInit(p)
		w.journal = w.journal[:0]
	}
	w.initMode = false
	w.journal = w.journal[:0]
	w.fnSeen = map[*Code]int64{}
}

func (w *W) runInit(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if ic, ok := r.(inconclusive); ok {
				w.e.mu.Lock()
				if w.id == 0 {
					fmt.Fprintf(os.Stderr, "note: initializer of %s incomplete: %s\n", p.Pkg.Path(), ic.msg)
				}
				w.e.mu.Unlock()
				w.stack = w.stack[:0]
				return
			}
			panic(r)
		}
	}()
	nf := w.newFrame(w.compile(fn))
	nf.dst = -1
	w.push(nf)
	w.run(0)
	if w.uncaught {
		w.uncaught = false
		panic(inconclusive{"panic in initializer of " + p.Pkg.Path() + ": " + w.panicString(w.uncaughtVal)})
	}
	w.stack = w.stack[:0]
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}
