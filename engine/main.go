package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func (e *Engine) sizes() types.Sizes { return types.SizesFor("gc", "amd64") }

func (e *Engine) reach(label string) {
	e.mu.Lock()
	e.reached[label]++
	e.mu.Unlock()
}

func (e *Engine) assertReached(site string) {
	e.mu.Lock()
	e.asserts[site]++
	e.mu.Unlock()
}

func (w *W) renderObs(model []uint64) []Obs {
	val := func(i int32) uint64 {
		if int(i) < len(model) {
			return model[i]
		}
		return 0
	}
	var r []Obs
	for _, o := range w.obs {
		s := ""
		switch {
		case o.rt == nil:
			s = "nil"
		case o.rt.k == KString:
			st := strOf(o.v)
			b := []byte(st.s)
			for i := range b {
				if st.sym != nil && st.sym[i] != nil {
					b[i] = byte(w.tt.eval(st.sym[i], val))
				}
			}
			s = "s:" + string(b)
		case o.rt.k == KInt:
			n := o.v.n
			if t, ok := o.v.p.(*Term); ok {
				n = o.rt.norm(w.tt.eval(t, val))
			}
			s = "i:" + strconv.FormatInt(int64(n), 10)
		case o.rt.k == KBool:
			n := o.v.n
			if t, ok := o.v.p.(*Term); ok {
				n = w.tt.eval(t, val)
			}
			s = "b:" + strconv.FormatBool(n != 0)
		default:
			s = "?" + goTypeString(o.rt.t)
		}
		r = append(r, Obs{o.label, strconv.QuoteToASCII(s)})
	}
	return r
}

// report records a candidate violation (it is replayed natively later).
func (e *Engine) report(w *W, h *Harness, kind, msg string, model []uint64) {
	if model == nil {
		if !w.ensureModel() {
			return
		}
		model = append([]uint64(nil), w.ctx.model...)
	}
	cur := e.cur
	key := cur.name + "|" + kind + "|" + msg
	if i := strings.IndexByte(msg, '\n'); i >= 0 {
		key = cur.name + "|" + kind + "|" + msg[:i]
	}
	in := w.inputs(model)
	obs := w.renderObs(model)
	vio := &Violation{Kind: kind, Harness: cur.name, Part: cur.part, Msg: msg, Inputs: in, Obs: obs, pkgDir: cur.pkgDir}
	e.mu.Lock()
	defer e.mu.Unlock()
	if kf := matchKnown(e.known, e.curProp, vio, ""); kf != "" {
		e.knownSeen[kf]++
		if e.knownSeen[kf] <= 2 {
			e.violations = append(e.violations, vio)
		}
		return
	}
	e.vioCount[key]++
	if e.vioCount[key] > 6 || len(e.violations) > 60 {
		if len(e.violations) > 60 || e.vioCount[key] > 2000 {
			e.stop.Store(true)
		}
		return
	}
	e.violations = append(e.violations, vio)
}

// pathDone confirms the path condition with the solver and samples the path.
func (e *Engine) pathDone(w *W, h *Harness, reason string) {
	if len(w.ctx.pc) > 0 || w.nvars > 0 {
		w.ctx.mvalid = w.ctx.mvalid && true
		if !w.ensureModel() {
			w.stat.Infeasible++
			return
		}
		// final feasibility confirmation of the whole path condition by the solver
		var cs []*Term
		cs = append(cs, w.ctx.pc...)
		for i := 0; i < w.nvars; i++ {
			v := w.tt.varOf(int32(i))
			if v.w == 8 && w.ctx.dom[i] != v.vi.dom {
				cs = append(cs, w.tt.InSet(v, w.ctx.dom[i]))
			}
		}
		if len(cs) > 0 && w.stat.Paths%int64(e.confirmEvery()) == 0 {
			r, _ := w.sol.check(w.tt, cs, nil, false)
			w.stat.PathSMT++
			if r != Sat {
				panic(inconclusive{"path condition not confirmed satisfiable by the solver"})
			}
		}
	}
	e.mu.Lock()
	e.pathsSeen++
	n := e.pathsSeen
	take := -1
	if len(e.samples) < e.sampleN {
		take = len(e.samples)
		e.samples = append(e.samples, PathSample{})
	} else {
		// deterministic reservoir
		x := uint64(n) * 0x9e3779b97f4a7c15
		x ^= x >> 29
		k := int(x % uint64(n))
		if k < e.sampleN {
			take = k
		}
	}
	if take >= 0 {
		m := append([]uint64(nil), w.ctx.model...)
		e.samples[take] = PathSample{h: e.cur, inputs: w.inputs(m), obs: w.renderObs(m), stop: reason == "stop"}
	}
	e.mu.Unlock()
}

func (e *Engine) confirmEvery() int {
	if e.tier > 0 {
		return 1
	}
	return 4
}

type nativeRun struct {
	Harness string  `json:"harness"`
	Part    int     `json:"part"`
	Tier    int     `json:"tier"`
	Inputs  []Input `json:"inputs"`
	Repeat  int     `json:"repeat,omitempty"`
}
type nativeOut struct {
	Status string `json:"status"`
	Msg    string `json:"msg"`
	Obs    []Obs  `json:"obs"`
}

// buildNative compiles the real package with the same harness files.
func (e *Engine) buildNative(prop, dir string) (string, error) {
	pkg := harnessDirs[dir]
	hd := filepath.Join(e.verif, "harness", pkg.dir)
	repl := map[string]string{}
	for v, r := range e.overlay {
		repl[v] = r
	}
	lp := strings.ToLower(prop)
	ents, _ := os.ReadDir(hd)
	names := map[string]bool{}
	for _, h := range e.harnesses {
		if h.pkgDir == dir {
			names[h.name] = true
		}
	}
	for _, x := range ents {
		n := x.Name()
		if strings.HasSuffix(n, ".go") && (strings.HasPrefix(n, "common") || strings.HasPrefix(n, lp+"_") || n == lp+".go") {
			repl[filepath.Join(e.repo, dir, "zz_verif_"+strings.TrimSuffix(n, ".go")+"_test.go")] = filepath.Join(hd, n)
		}
	}
	shared, err := e.sharedFiles(pkg.name)
	if err != nil {
		return "", err
	}
	for n, src := range shared {
		f := filepath.Join(e.scratch, "shared_"+pkg.dir+"_"+n)
		if err := os.WriteFile(f, src, 0644); err != nil {
			return "", err
		}
		repl[filepath.Join(e.repo, dir, "zz_verif_"+strings.TrimSuffix(n, ".go")+"_test.go")] = f
	}
	sh, err := os.ReadFile(filepath.Join(e.verif, "engine/shim_native.go.txt"))
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	sb.WriteString(strings.Replace(string(sh), "package PKG", "package "+pkg.name, 1))
	sb.WriteString("\nvar vHarnesses = map[string]func(int){\n")
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString("}\n")
	tag := strings.ReplaceAll(dir, "/", "_")
	shp := filepath.Join(e.scratch, "shim_"+tag+"_test.go")
	if err := os.WriteFile(shp, []byte(sb.String()), 0644); err != nil {
		return "", err
	}
	repl[filepath.Join(e.repo, dir, "zz_verif_shim_test.go")] = shp
	// the repository's own tests are not part of the replay binary
	tf, _ := filepath.Glob(filepath.Join(e.repo, dir, "*_test.go"))
	for _, t := range tf {
		repl[t] = ""
	}
	ovp := filepath.Join(e.scratch, "overlay_"+tag+".json")
	if err := writeJSON(ovp, map[string]any{"Replace": repl}); err != nil {
		return "", err
	}
	bin := filepath.Join(e.scratch, "replay_"+tag+".test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovp, "-o", bin, "./" + dir}
	cmd := exec.Command("go", args...)
	cmd.Dir = e.repo
	cmd.Env = e.gocfg
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, b)
	}
	return bin, nil
}

func (e *Engine) runNative(bin, dir string, runs []nativeRun, timeout time.Duration) ([]nativeOut, string, error) {
	in := filepath.Join(e.scratch, fmt.Sprintf("in_%d.json", time.Now().UnixNano()))
	out := in + ".out"
	if err := writeJSON(in, runs); err != nil {
		return nil, "", err
	}
	defer os.Remove(in)
	defer os.Remove(out)
	cmd := exec.Command(bin, "-test.run", "^TestVerifReplay$", "-test.timeout", timeout.String())
	cmd.Dir = filepath.Join(e.repo, dir)
	cmd.Env = append(goEnv(), "VERIF_REPLAY="+in, "VERIF_REPLAY_OUT="+out, "VERIF_SCRATCH="+e.scratch, "GOMEMLIMIT=2GiB")
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err := cmd.Run()
	txt := buf.String()
	if len(txt) > 3000 {
		txt = txt[:3000]
	}
	b, rerr := os.ReadFile(out)
	if rerr != nil {
		return nil, txt, fmt.Errorf("native run produced no result: %v", err)
	}
	var outs []nativeOut
	if err := json.Unmarshal(b, &outs); err != nil {
		return nil, txt, err
	}
	return outs, txt, nil
}

type ReplayFile struct {
	Property string    `json:"property"`
	Dir      string    `json:"dir"`
	Run      nativeRun `json:"run"`
	Kind     string    `json:"kind"`
	Msg      string    `json:"msg"`
	Native   string    `json:"native_outcome"`
	How      string    `json:"how_to_replay"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "run only harnesses matching this regexp (development)")
	workers := flag.Int("workers", 0, "workers")
	dumpF := flag.String("dump", "", "write every query of worker 0 to this file")
	budget := flag.Duration("budget", 0, "time budget")
	dbg := flag.Bool("debug", false, "debug")
	replay := flag.String("replay", "", "replay a recorded violation natively")
	prof := flag.String("cpuprofile", "", "")
	list := flag.Bool("list", false, "list harnesses")
	cross := flag.Bool("cross", false, "cross-check queries with cvc5")
	noev := flag.Bool("noevidence", false, "do not write evidence")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	e := &Engine{repo: *repo, verif: *verif, debug: *dbg, debugTrace: true, crossCheck: *cross}
	if *tier == "thorough" {
		e.tier = 1
	}
	sc, err := os.MkdirTemp("", "verif-"+*prop+"-")
	if err != nil {
		fail("scratch: %v", err)
	}
	e.scratch = sc
	code := 2
	defer func() { os.Exit(code) }()
	defer os.RemoveAll(sc)
	e.workers = *workers
	if e.workers == 0 {
		e.workers = runtime.NumCPU()
		if e.workers > 8 {
			e.workers = 8
		}
	}
	if *budget == 0 {
		*budget = 780 * time.Second
		if e.tier == 1 {
			*budget = 4 * time.Hour
		}
	}
	e.deadline = t0.Add(*budget)
	if *dumpF != "" {
		e.dump, _ = os.Create(*dumpF)
	}
	e.sampleN = 60
	if e.tier == 1 {
		e.sampleN = 400
	}
	if err := e.load(*prop); err != nil {
		fmt.Println("INCONCLUSIVE:", err)
		return
	}
	if *replay != "" {
		code = e.doReplay(*prop, *replay)
		return
	}
	if *list {
		for _, h := range e.harnesses {
			fmt.Printf("%s part=%d dir=%s tier=%s bound=%s\n", h.name, h.part, h.pkgDir, h.tier, h.bound)
		}
		code = 0
		return
	}
	code = e.check(*prop, *only, t0, !*noev)
}

func fail(f string, a ...any) {
	fmt.Printf(f+"\n", a...)
	os.Exit(2)
}

func (e *Engine) doReplay(prop, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r ReplayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	bin, err := e.buildNative(prop, r.Dir)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	outs, txt, err := e.runNative(bin, r.Dir, []nativeRun{r.Run}, 30*time.Second)
	if err != nil {
		fmt.Println("native run did not complete:", err, "\n", txt)
		return 1
	}
	fmt.Printf("%s %s\n", outs[0].Status, outs[0].Msg)
	for _, o := range outs[0].Obs {
		fmt.Printf("  %s = %s\n", o.Label, o.V)
	}
	if outs[0].Status == "assert" || outs[0].Status == "panic" {
		return 1
	}
	return 0
}

type hResult struct {
	Harness  string           `json:"harness"`
	Part     int              `json:"part"`
	Bound    string           `json:"bound"`
	Paths    int64            `json:"paths"`
	Seconds  float64          `json:"seconds"`
	Reached  map[string]int64 `json:"reach_labels"`
	Asserts  map[string]int64 `json:"assertions_reached"`
	Complete bool             `json:"exploration_complete"`
}

func (e *Engine) check(prop, only string, t0 time.Time, writeEv bool) int {
	var re *regexp.Regexp
	if only != "" {
		re = regexp.MustCompile(only)
	}
	ws := make([]*W, e.workers)
	var wg sync.WaitGroup
	var initErr string
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					e.mu.Lock()
					if ic, ok := r.(inconclusive); ok {
						initErr = ic.msg
					} else {
						initErr = fmt.Sprint(r) + "\n" + string(debug.Stack())
					}
					e.mu.Unlock()
				}
			}()
			ws[i] = e.newWorker(i)
			ws[i].runInits()
		}(i)
	}
	wg.Wait()
	if initErr != "" {
		fmt.Println("INCONCLUSIVE: initialization:", initErr)
		return 2
	}
	initTime := time.Since(t0)
	e.vioCount = map[string]int{}
	e.known = loadKnown(filepath.Join(e.verif, "known_findings.txt"))
	e.knownSeen = map[string]int{}
	e.curProp = prop
	var results []hResult
	allReached := map[string]int64{}
	inconcl := ""
	nh := 0
	for _, h := range e.harnesses {
		if re != nil && !re.MatchString(h.name+"/"+strconv.Itoa(h.part)) {
			continue
		}
		if h.tier == "thorough" && e.tier == 0 {
			continue
		}
		nh++
		e.cur = h
		e.reached = map[string]int64{}
		e.asserts = map[string]int64{}
		e.stop.Store(false)
		e.unsup, e.unsupN = "", 0
		ht := time.Now()
		before := int64(0)
		for _, w := range ws {
			before += w.stat.Paths
			// replacement tables differ between harnesses of different packages only
			w.stepLimit = 3000000
			if h.steps > 0 {
				w.stepLimit = h.steps
			}
		}
		q := &queue{n: len(ws)}
		q.cond = sync.NewCond(&q.mu)
		q.jobs = []job{{}}
		e.q = q
		ic := e.runHarness(h, ws, q)
		if ic == "" && e.unsupN > 0 {
			ic = fmt.Sprintf("%d paths could not be interpreted; first: %s", e.unsupN, e.unsup)
		}
		after := int64(0)
		for _, w := range ws {
			after += w.stat.Paths
		}
		results = append(results, hResult{h.name, h.part, strings.TrimSpace(h.bound), after - before, time.Since(ht).Seconds(), e.reached, e.asserts, ic == ""})
		for k, v := range e.reached {
			allReached[k] += v
		}
		fmt.Printf("  %s/%d: %d paths, %.1fs%s\n", h.name, h.part, after-before, time.Since(ht).Seconds(), map[bool]string{true: "", false: " INCOMPLETE"}[ic == ""])
		if ic == "" && len(e.violations) == 0 {
			if len(e.asserts) == 0 {
				ic = h.name + ": vacuous: no assertion reached"
			}
			for _, r := range h.reaches {
				if e.reached[r] == 0 {
					ic = h.name + ": vacuous: reach label " + r + " never reached"
				}
			}
		}
		if ic != "" {
			inconcl = orS(inconcl, h.name+": "+ic)
			if strings.HasPrefix(ic, "time budget") {
				break
			}
		}
		if len(e.violations) > 30 {
			break
		}
		if len(e.violations) > 0 && len(e.known) == 0 {
			// the verdict is settled: spend a little more on other violations
			if d := time.Now().Add(100 * time.Second); d.Before(e.deadline) {
				e.deadline = d
				for _, w := range ws {
					w.deadline = d
				}
			}
		}
	}
	if nh == 0 {
		fmt.Println("INCONCLUSIVE: no harness selected")
		return 2
	}
	for _, w := range ws {
		w.sol.close()
		if w.xsol != nil {
			w.xsol.close()
		}
	}
	return e.finish(prop, ws, results, inconcl, t0, initTime, writeEv)
}

func (e *Engine) runHarness(h *Harness, ws []*W, q *queue) (ic string) {
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					e.mu.Lock()
					if x, ok := r.(inconclusive); ok {
						if ic == "" {
							ic = x.msg
						}
					} else {
						ic = fmt.Sprintf("engine panic: %v\n%s", r, debug.Stack())
					}
					e.mu.Unlock()
					e.stop.Store(true)
					q.stop()
				}
			}()
			for {
				j, ok := q.get()
				if !ok {
					return
				}
				w.runJob(h, j)
			}
		}(w)
	}
	wg.Wait()
	if ic == "stopped" && len(e.violations) > 0 {
		ic = ""
	}
	return ic
}

func (e *Engine) finish(prop string, ws []*W, results []hResult, inconcl string, t0 time.Time, initTime time.Duration, writeEv bool) int {
	var st Stats
	var queries, nsat, nunsat int64
	var stime, maxq time.Duration
	fns := map[string]int64{}
	lib := map[string]bool{}
	prof := map[string]int{}
	for _, w := range ws {
		s := w.stat
		st.Paths += s.Paths
		st.Infeasible += s.Infeasible
		st.Forks += s.Forks
		st.Decisions += s.Decisions
		st.Steps += s.Steps
		st.DomDecided += s.DomDecided
		st.ModelDecided += s.ModelDecided
		st.CacheHits += s.CacheHits
		st.Merges += s.Merges
		st.MergeHits += s.MergeHits
		st.AssertFolded += s.AssertFolded
		st.AssertSMT += s.AssertSMT
		st.AssertFail += s.AssertFail
		st.PathSMT += s.PathSMT
		st.Concretized += s.Concretized
		for k, n := range w.prof {
			prof[k] += n
		}
		st.XChecked += s.XChecked
		st.Audits += s.Audits
		st.MaxVars = max(st.MaxVars, s.MaxVars)
		st.MaxPathSteps = max(st.MaxPathSteps, s.MaxPathSteps)
		queries += w.sol.queries
		nsat += w.sol.nsat
		nunsat += w.sol.nunsat
		stime += w.sol.time
		maxq = max(maxq, w.sol.maxT)
		for c, n := range w.fnSeen {
			fns[c.name] += n
		}
		for c := range w.codes {
			if c.Synthetic == "" {
				lib[c.String()] = true
			}
		}
	}
	// native confirmation of violations and validation of sampled paths
	validated, mismatches := 0, []string{}
	bins := map[string]string{}
	getBin := func(dir string) (string, error) {
		if b, ok := bins[dir]; ok {
			return b, nil
		}
		b, err := e.buildNative(prop, dir)
		if err == nil {
			bins[dir] = b
		}
		return b, err
	}
	byDir := map[string][]PathSample{}
	for _, s := range e.samples {
		if s.h != nil {
			byDir[s.h.pkgDir] = append(byDir[s.h.pkgDir], s)
		}
	}
	for dir, ss := range byDir {
		bin, err := getBin(dir)
		if err != nil {
			inconcl = orS(inconcl, err.Error())
			continue
		}
		var runs []nativeRun
		for _, s := range ss {
			runs = append(runs, nativeRun{s.h.name, s.h.part, e.tier, s.inputs, 0})
		}
		outs, txt, err := e.runNative(bin, dir, runs, 120*time.Second)
		if err != nil {
			mismatches = append(mismatches, fmt.Sprintf("native run of sampled paths failed: %v %s", err, txt))
			continue
		}
		for i, o := range outs {
			want := "ok"
			if ss[i].stop {
				want = "stop"
			}
			if o.Status != want || !obsEqual(o.Obs, ss[i].obs) {
				mismatches = append(mismatches, fmt.Sprintf("%s: native %s %s\n  native obs %v\n  engine obs %v\n  inputs %v", ss[i].h.name, o.Status, o.Msg, o.Obs, ss[i].obs, renderInputs(ss[i].inputs)))
				continue
			}
			validated++
		}
	}
	confirmed := 0
	knownHit := map[string]bool{}
	var unconfirmed []string
	rdir := filepath.Join(e.verif, "evidence", "replays")
	os.MkdirAll(rdir, 0755)
	seen := map[string]int{}
	for i, v := range e.violations {
		k := v.Harness + v.Kind + firstLine(v.Msg)
		if seen[k] >= 2 {
			continue
		}
		bin, err := getBin(v.pkgDir)
		if err != nil {
			inconcl = orS(inconcl, err.Error())
			break
		}
		run := nativeRun{v.Harness, v.Part, e.tier, v.Inputs, 500}
		outs, txt, err := e.runNative(bin, v.pkgDir, []nativeRun{run}, 20*time.Second)
		native := ""
		ok := false
		if err != nil {
			native = "did not complete: " + firstLine(txt)
			ok = v.Kind == "nonterm" || v.Kind == "overflow" || strings.Contains(txt, "stack overflow") || strings.Contains(txt, "test timed out") || strings.Contains(txt, "goroutine stack exceeds")
		} else {
			native = outs[0].Status + " " + outs[0].Msg
			ok = outs[0].Status == "assert" || outs[0].Status == "panic"
		}
		if !ok {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s: engine %s %q, native %q inputs %s", v.Harness, v.Kind, v.Msg, native, renderInputs(v.Inputs)))
			continue
		}
		seen[k]++
		desc := fmt.Sprintf("%s %s: %s; inputs: %s", v.Harness, v.Kind, firstLine(v.Msg), renderInputs(v.Inputs))
		if kf := matchKnown(e.known, prop, v, native); kf != "" {
			if !knownHit[kf] {
				knownHit[kf] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf)
			}
			continue
		}
		confirmed++
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, i))
		writeJSON(path, ReplayFile{prop, v.pkgDir, run, v.Kind, v.Msg, native, fmt.Sprintf("/verif/run.sh %s --replay %s", prop, path)})
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  %s\n  native: %s\n", desc, native)
		for _, o := range v.Obs {
			fmt.Printf("    observed %s = %s\n", o.Label, o.V)
		}
		if confirmed >= 6 {
			break
		}
	}
	if len(unconfirmed) > 0 {
		inconcl = orS(inconcl, "engine counterexample did not reproduce on the real code: "+strings.Join(unconfirmed[:min(3, len(unconfirmed))], "\n"))
	}
	if len(mismatches) > 0 {
		inconcl = orS(inconcl, fmt.Sprintf("%d sampled paths disagree with the real code:\n%s", len(mismatches), strings.Join(mismatches[:min(4, len(mismatches))], "\n")))
	}
	var fnames []string
	for n := range fns {
		fnames = append(fnames, strings.ReplaceAll(n, modPath, "asn1go"))
	}
	sort.Strings(fnames)
	var bounds []string
	complete := true
	dedup := map[string]bool{}
	for _, r := range results {
		s := r.Harness + ": " + r.Bound
		if !dedup[s] {
			dedup[s] = true
			bounds = append(bounds, s)
		}
		complete = complete && r.Complete
	}
	tier := "quick"
	if e.tier == 1 {
		tier = "thorough"
	}
	if e.debug {
		type pe struct {
			k string
			n int
		}
		var l []pe
		for k, n := range prof {
			l = append(l, pe{k, n})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
		for i, p := range l {
			if i < 12 {
				fmt.Printf("  fork %d %s\n", p.n, p.k)
			}
		}
	}
	fmt.Printf("%s %s: %d paths (%d infeasible ends), %d forks, %d decisions, %.1fM steps; asserts %d by SMT, %d folded; %d SMT queries (%d sat, %d unsat, %.1fs, max %.2fs), %d cache hits, %d path checks; merges %d(+%d); native-validated %d; vars<=%d; steps/path<=%d; init %.1fs total %.1fs\n",
		prop, tier, st.Paths, st.Infeasible, st.Forks, st.Decisions, float64(st.Steps)/1e6, st.AssertSMT, st.AssertFolded, queries, nsat, nunsat, stime.Seconds(), maxq.Seconds(), st.CacheHits, st.PathSMT, st.Merges, st.MergeHits, validated, st.MaxVars, st.MaxPathSteps, initTime.Seconds(), time.Since(t0).Seconds())
	if writeEv {
		e.writeEvidence(prop, tier, st, queries, nsat, nunsat, stime, maxq, fnames, len(lib), bounds, results, validated, confirmed, complete && inconcl == "", inconcl, time.Since(t0))
	}
	if confirmed > 0 {
		return 1
	}
	if inconcl != "" {
		fmt.Println("INCONCLUSIVE:", inconcl)
		return 2
	}
	fmt.Printf("OK %s: property held on everything explored\n", prop)
	return 0
}

func orS(a, b string) string {
	if a != "" {
		return a + "\n" + b
	}
	return b
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func obsEqual(a, b []Obs) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func renderInputs(in []Input) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if x.V >= 0x20 && x.V < 0x7f && !strings.HasPrefix(x.Label, "#") {
			fmt.Fprintf(&sb, "%s=%d(%q)", x.Label, x.V, rune(x.V))
		} else {
			fmt.Fprintf(&sb, "%s=%d", x.Label, int64(x.V))
		}
	}
	return sb.String()
}

type knownFinding struct {
	prop, desc string
	re         *regexp.Regexp
}

// known_findings.txt: lines "finding: property=<id> match=/<regexp over "harness|kind|msg|inputs">/ <what fails>"
// and "fixed: property=<id> <commit> <what failed>" (which suppress nothing).
func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []knownFinding
	lre := regexp.MustCompile(`^finding: property=(\S+) match=/(.*?)/ (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := lre.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			r = append(r, knownFinding{m[1], m[3], regexp.MustCompile(m[2])})
		}
	}
	return r
}

func matchKnown(ks []knownFinding, prop string, v *Violation, native string) string {
	s := v.Harness + "|" + v.Kind + "|" + v.Msg + "|" + renderInputs(v.Inputs)
	for _, o := range v.Obs {
		s += "|" + o.Label + "=" + o.V
	}
	for _, k := range ks {
		if k.prop == prop && k.re.MatchString(s) {
			return k.desc
		}
	}
	return ""
}
