package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type trailEnt struct {
	v   int32
	old Set256
}

type pathCtx struct {
	nested bool
	base   int
	pc     []*Term
	trail  []trailEnt
	dom    []Set256
	multi  []int32 // per var: number of pc terms mentioning it
	dec    []byte
	forced []byte
	fpos   int
	model  []uint64
	mvalid bool
	snaps  []*Snapshot
}

type stepState struct {
	journal, ndec, pc, trail, nvars, nobs int
	steps                                 int64
}

type Snapshot struct {
	stack []*Frame
	st    stepState
	redo  []byte
	model []uint64
}

type obsEnt struct {
	label string
	v     Value
	rt    *RType
}

type tailCall struct {
	callee *Callee
	args   []Value
	free   []Value
}

type W struct {
	prof    map[string]int // fork sites (-debug)
	e       *Engine
	id      int
	tt      *TermTab
	sol     *Solver
	xsol    *Solver
	callees map[*ssa.Function]*Callee
	codes   map[*ssa.Function]*Code
	globals map[*ssa.Global]*Value
	rtc     map[string]*Callee
	digits  map[digitsKey][]*Term
	stack   []*Frame
	freeFr  []*Frame
	journal []jent
	ctx     *pathCtx
	st      stepState
	ret     Value
	tail    *tailCall
	nvars   int
	vlabels []string
	obs     []obsEnt

	steps, stepLimit   int64
	maxDepth           int
	uncaught           bool
	uncaughtVal        Value
	mapOrder, initMode bool
	merge              map[string]*Term
	qcache             map[string]qres
	fnSeen             map[*Code]int64
	deadline           time.Time

	lastDom, auditN int64

	stat Stats
}

type qres struct {
	r     SatRes
	model map[int32]uint64
}

type Stats struct {
	Paths, Infeasible        int64
	Forks, Decisions         int64
	Steps                    int64
	DomDecided, ModelDecided int64
	CacheHits                int64
	Merges, MergeHits        int64
	AssertFolded, AssertSMT  int64
	AssertFail               int64
	PathSMT                  int64
	MaxVars                  int
	MaxPathSteps             int64
	Concretized              int64
	XChecked                 int64
	Audits                   int64
}

func (w *W) checkTime() {
	if time.Now().After(w.deadline) {
		panic(inconclusive{"time budget exhausted"})
	}
	if w.e.stop.Load() {
		panic(inconclusive{"stopped"})
	}
}

// ---- variables ----

func (w *W) newVar(width uint8, dom Set256, lo, hi uint64, label string) *Term {
	if w.ctx.nested {
		panic(mergeAbort{"new variable"})
	}
	t := w.tt.Var(w.nvars, width, dom, lo, hi, label)
	i := w.nvars
	w.nvars++
	c := w.ctx
	for len(c.dom) <= i {
		c.dom = append(c.dom, Set256{})
		c.multi = append(c.multi, 0)
	}
	for len(c.model) <= i {
		c.model = append(c.model, 0)
	}
	c.dom[i] = dom
	c.multi[i] = 0
	if width == 8 {
		c.model[i] = dom.first()
	} else {
		c.model[i] = lo
	}
	if w.nvars > w.stat.MaxVars {
		w.stat.MaxVars = w.nvars
	}
	return t
}

func (w *W) modelVal(i int32) uint64 {
	if int(i) < len(w.ctx.model) {
		return w.ctx.model[i]
	}
	return 0
}

// ---- constraints ----

func (w *W) addConstraint(c *Term) {
	ctx := w.ctx
	switch c.op {
	case OConst:
		return
	case OBAnd:
		w.addConstraint(c.a)
		w.addConstraint(c.b)
		return
	case OBNot:
		if c.a.op == OBOr {
			w.addConstraint(w.tt.Not(c.a.a))
			w.addConstraint(w.tt.Not(c.a.b))
			return
		}
	case OInSet:
		v := c.a.vi.idx
		d := w.domOf(int32(v))
		nd := and256(*d, c.set)
		if nd != *d {
			ctx.trail = append(ctx.trail, trailEnt{int32(v), *d})
			w.setDom(int32(v), nd)
		}
		if !ctx.nested && ctx.mvalid && !nd.has(ctx.model[v]) {
			if ctx.multi[v] == 0 {
				ctx.model[v] = nd.first()
			} else {
				ctx.mvalid = false
			}
		}
		return
	}
	ctx.pc = append(ctx.pc, c)
	if !ctx.nested {
		for _, v := range c.supp {
			ctx.multi[v]++
		}
		if ctx.mvalid && w.tt.eval(c, w.modelVal) == 0 {
			ctx.mvalid = false
		}
	}
}

func (w *W) domOf(v int32) *Set256 {
	ctx := w.ctx
	if ctx.nested {
		for len(ctx.dom) <= int(v) {
			ctx.dom = append(ctx.dom, Set256{})
		}
		if ctx.dom[v].empty() {
			ctx.dom[v] = w.tt.varOf(v).vi.dom
		}
	}
	return &ctx.dom[v]
}

func (w *W) setDom(v int32, d Set256) {
	w.ctx.dom[v] = d
}

func (w *W) undoCtx(pc, trail int) {
	ctx := w.ctx
	for i := len(ctx.trail) - 1; i >= trail; i-- {
		ctx.dom[ctx.trail[i].v] = ctx.trail[i].old
	}
	ctx.trail = ctx.trail[:trail]
	if !ctx.nested {
		for _, c := range ctx.pc[pc:] {
			for _, v := range c.supp {
				ctx.multi[v]--
			}
		}
	}
	ctx.pc = ctx.pc[:pc]
}

// absEval decides c from the per-variable domains when possible: 1, 0 or -1.
func (w *W) absEval(c *Term) int {
	switch c.op {
	case OConst:
		return int(c.c)
	case OInSet:
		d := *w.domOf(int32(c.a.vi.idx))
		x := and256(d, c.set)
		if x.empty() {
			return 0
		}
		if x == d {
			return 1
		}
		return -1
	case OBNot:
		r := w.absEval(c.a)
		if r < 0 {
			return r
		}
		return 1 - r
	case OBAnd:
		a := w.absEval(c.a)
		if a == 0 {
			return 0
		}
		b := w.absEval(c.b)
		if b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
		return -1
	case OBOr:
		a := w.absEval(c.a)
		if a == 1 {
			return 1
		}
		b := w.absEval(c.b)
		if b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
		return -1
	}
	return -1
}

// slice collects the constraints connected to c.
func (w *W) sliceFor(supp []int32) []*Term {
	ctx := w.ctx
	if len(ctx.pc) == 0 {
		return nil
	}
	in := map[int32]bool{}
	for _, v := range supp {
		in[v] = true
	}
	used := make([]bool, len(ctx.pc))
	var r []*Term
	for changed := true; changed; {
		changed = false
		for i, p := range ctx.pc {
			if used[i] {
				continue
			}
			for _, v := range p.supp {
				if in[v] {
					used[i] = true
					changed = true
					r = append(r, p)
					for _, x := range p.supp {
						in[x] = true
					}
					break
				}
			}
		}
	}
	return r
}

func (w *W) query(cs []*Term, model bool) (SatRes, map[int32]uint64) {
	ids := make([]int, 0, len(cs))
	var supp []int32
	for _, c := range cs {
		ids = append(ids, int(c.id))
		supp = mergeSupp(supp, c.supp)
	}
	sort.Ints(ids)
	key := make([]byte, 0, 8*len(ids)+36*len(supp))
	for _, i := range ids {
		key = binary.LittleEndian.AppendUint32(key, uint32(i))
	}
	key = append(key, 0xff, 0xff, 0xff, 0xff)
	for _, v := range supp {
		t := w.tt.varOf(v)
		key = binary.LittleEndian.AppendUint32(key, uint32(t.id))
		if t.w == 8 {
			d := w.domOf(v)
			for _, x := range d {
				key = binary.LittleEndian.AppendUint64(key, x)
			}
		}
	}
	if r, ok := w.qcache[string(key)]; ok {
		w.stat.CacheHits++
		return r.r, r.model
	}
	r, m := w.sol.check(w.tt, cs, w.domOf, true)
	if w.xsol != nil && r != Unknown {
		r2, _ := w.xsol.check(w.tt, cs, w.domOf, false)
		w.stat.XChecked++
		if r2 != Unknown && r2 != r {
			panic(inconclusive{fmt.Sprintf("solvers disagree: %s=%d %s=%d", w.sol.kind, r, w.xsol.kind, r2)})
		}
	}
	if r == Unknown {
		panic(inconclusive{"solver returned unknown/timeout"})
	}
	if len(w.qcache) > 200000 {
		w.qcache = map[string]qres{}
	}
	w.qcache[string(key)] = qres{r, m}
	return r, m
}

func (w *W) mergeModel(m map[int32]uint64) []uint64 {
	r := append([]uint64(nil), w.ctx.model...)
	for k, v := range m {
		if int(k) < len(r) {
			r[k] = v
		}
	}
	return r
}

// ensureModel makes ctx.model a model of the path condition.
func (w *W) ensureModel() bool {
	ctx := w.ctx
	if ctx.mvalid {
		return true
	}
	if len(ctx.pc) > 0 {
		r, m := w.query(append([]*Term(nil), ctx.pc...), true)
		if r != Sat {
			return false
		}
		for k, v := range m {
			ctx.model[k] = v
		}
	}
	for i := 0; i < w.nvars; i++ {
		t := w.tt.varOf(int32(i))
		if t.w == 8 && !ctx.dom[i].has(ctx.model[i]) {
			ctx.model[i] = ctx.dom[i].first()
		}
	}
	ctx.mvalid = true
	return true
}

// audit has the solver confirm every 64th branch verdict that the byte-domain
// reasoning produced without a query.
func (w *W) audit(c *Term, t bool) {
	if w.ctx.nested || w.stat.DomDecided == w.lastDom {
		return
	}
	w.lastDom = w.stat.DomDecided
	w.auditN++
	if w.auditN%64 != 0 {
		return
	}
	x := c
	if t {
		x = w.tt.Not(c)
	}
	r, _ := w.query(append(w.sliceFor(x.supp), x), false)
	w.stat.Audits++
	if r != Unsat {
		panic(inconclusive{"audit: the solver disagrees with a domain verdict"})
	}
}

// feasible decides whether c and not c are each satisfiable under the path
// condition. The returned models (when non-nil) satisfy pc and that side.
func (w *W) feasible(c *Term) (t, f bool, mt, mf []uint64) {
	ctx := w.ctx
	switch w.absEval(c) {
	case 1:
		w.stat.DomDecided++
		return true, false, nil, nil
	case 0:
		w.stat.DomDecided++
		return false, true, nil, nil
	}
	if c.op == OInSet && (ctx.nested || ctx.multi[c.a.vi.idx] == 0) {
		if !ctx.nested || !w.mentions(c.a.vi.idx) {
			w.stat.DomDecided++
			return true, true, nil, nil
		}
	}
	nc := w.tt.Not(c)
	if ctx.nested {
		sl := w.sliceFor(c.supp)
		r1, _ := w.query(append(append([]*Term(nil), sl...), c), false)
		r2, _ := w.query(append(append([]*Term(nil), sl...), nc), false)
		return r1 == Sat, r2 == Sat, nil, nil
	}
	sl := w.sliceFor(c.supp)
	if ctx.mvalid || w.ensureModel() {
		if w.tt.eval(c, w.modelVal) != 0 {
			w.stat.ModelDecided++
			r, m := w.query(append(append([]*Term(nil), sl...), nc), true)
			if r == Sat {
				return true, true, nil, w.mergeModel(m)
			}
			return true, false, nil, nil
		}
		w.stat.ModelDecided++
		r, m := w.query(append(append([]*Term(nil), sl...), c), true)
		if r == Sat {
			return true, true, w.mergeModel(m), nil
		}
		return false, true, nil, nil
	}
	return false, false, nil, nil
}

func (w *W) mentions(v int) bool {
	for _, p := range w.ctx.pc {
		for _, x := range p.supp {
			if int(x) == v {
				return true
			}
		}
	}
	return false
}

// branch decides a symbolic condition on the current path, forking when both
// outcomes are feasible.
func (w *W) branch(c *Term) bool {
	if c.op == OConst {
		return c.c != 0
	}
	ctx := w.ctx
	if ctx.fpos < len(ctx.forced) {
		d := ctx.forced[ctx.fpos]
		ctx.fpos++
		w.take(c, d != 0, nil)
		return d != 0
	}
	t, f, mt, mf := w.feasible(c)
	if t != f && mt == nil && mf == nil {
		w.audit(c, t)
	}
	switch {
	case t && f:
		w.stat.Forks++
		if w.e.debug && len(w.stack) > 0 {
			p := ""
			for i := len(w.stack) - 1; i >= 0 && i > len(w.stack)-4; i-- {
				p += w.where(w.stack[i]) + " < "
			}
			if w.prof == nil {
				w.prof = map[string]int{}
			}
			w.prof[p]++
		}
		w.snapshot(0, mf)
		w.take(c, true, mt)
		return true
	case t:
		w.take(c, true, nil)
		return true
	case f:
		w.take(c, false, nil)
		return false
	}
	panic(pathEnd{"infeasible"})
}

func (w *W) take(c *Term, d bool, model []uint64) {
	w.stat.Decisions++
	w.ctx.dec = append(w.ctx.dec, byte(b2u(d)))
	if model != nil {
		w.ctx.model = model
		w.ctx.mvalid = true
	}
	if !d {
		c = w.tt.Not(c)
	}
	w.addConstraint(c)
}

func (w *W) snapshot(alt byte, model []uint64) {
	ctx := w.ctx
	sub := w.stack[ctx.base:]
	st := make([]*Frame, len(sub))
	for i, f := range sub {
		if i == len(sub)-1 {
			st[i] = f.clone()
		} else {
			f.frozen = true
			st[i] = f
		}
	}
	s := &Snapshot{stack: st, st: w.st, model: model}
	s.redo = append(append([]byte(nil), ctx.dec[w.st.ndec:]...), alt)
	ctx.snaps = append(ctx.snaps, s)
	if !ctx.nested {
		w.e.maybeDonate(w)
	}
}

func (w *W) restore(s *Snapshot) {
	ctx := w.ctx
	w.undoTo(s.st.journal)
	w.undoCtx(s.st.pc, s.st.trail)
	ctx.dec = ctx.dec[:s.st.ndec]
	ctx.forced = s.redo
	ctx.fpos = 0
	w.stack = append(w.stack[:ctx.base], s.stack...)
	if !ctx.nested {
		w.nvars = s.st.nvars
		w.obs = w.obs[:s.st.nobs]
		if s.model != nil {
			ctx.model = s.model
			ctx.mvalid = true
		} else {
			// The stale model may not satisfy the restored prefix.
			ctx.mvalid = len(ctx.pc) == 0
			if ctx.mvalid {
				for i := 0; i < w.nvars; i++ {
					t := w.tt.varOf(int32(i))
					if t.w == 8 && !ctx.dom[i].has(ctx.model[i]) {
						ctx.model[i] = ctx.dom[i].first()
					}
				}
			}
		}
		w.steps = s.st.steps
	}
}

// concretize forks over the feasible values of t.
func (w *W) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.c
	}
	ctx := w.ctx
	if ctx.nested {
		panic(mergeAbort{"concretize"})
	}
	w.stat.Concretized++
	for n := 0; ; n++ {
		if n > 5000 {
			panic(inconclusive{"too many concrete values for a symbolic value"})
		}
		// choose the candidate deterministically: smallest feasible value for
		// narrow terms, so that replaying decisions is independent of models.
		v, ok := w.minValue(t)
		if !ok {
			panic(pathEnd{"infeasible"})
		}
		if w.branch(w.tt.Cmp(OEq, t, w.tt.Const(v, t.w))) {
			return v
		}
	}
}

// minValue finds the smallest feasible value of t under the path condition.
func (w *W) minValue(t *Term) (uint64, bool) {
	ctx := w.ctx
	if v := w.tt.single8(t); v != nil && ctx.multi[v.vi.idx] == 0 {
		d := ctx.dom[v.vi.idx]
		best, ok := uint64(0), false
		for x := uint64(0); x < 256; x++ {
			if d.has(x) {
				r := w.tt.eval(t, func(int32) uint64 { return x })
				if !ok || r < best {
					best, ok = r, true
				}
			}
		}
		return best, ok
	}
	sl := w.sliceFor(t.supp)
	lo, hi := t.lo, t.hi
	r, m := w.queryVal(sl, t)
	if r != Sat {
		return 0, false
	}
	mm := w.mergeModel(m)
	hi = w.tt.eval(t, func(i int32) uint64 { return mm[i] })
	for lo < hi {
		mid := lo + (hi-lo)/2
		c := w.tt.Cmp(OUle, t, w.tt.Const(mid, t.w))
		if c.op == OConst {
			if c.c != 0 {
				hi = mid
			} else {
				lo = mid + 1
			}
			continue
		}
		r, m := w.query(append(append([]*Term(nil), sl...), c), true)
		if r == Sat {
			mm := w.mergeModel(m)
			hi = w.tt.eval(t, func(i int32) uint64 { return mm[i] })
			if hi > mid {
				hi = mid
			}
		} else {
			lo = mid + 1
		}
	}
	return lo, true
}

func (w *W) queryVal(sl []*Term, t *Term) (SatRes, map[int32]uint64) {
	if len(sl) == 0 {
		m := map[int32]uint64{}
		for _, v := range t.supp {
			vt := w.tt.varOf(v)
			if vt.w == 8 {
				m[v] = w.ctx.dom[v].first()
			} else {
				m[v] = vt.vi.lo
			}
		}
		return Sat, m
	}
	return w.query(sl, true)
}

func (w *W) chooseInternal(label string, n int) int {
	var d Set256
	for i := 0; i < n; i++ {
		d.add(uint64(i))
	}
	t := w.newVar(8, d, 0, uint64(n-1), label)
	return int(w.concretize(t))
}

// ---- merging of pure scalar functions ----

func (w *W) isPure(c *Callee) bool {
	if c.pure == 0 {
		c.pure = -1
		if c.rtype != nil && (c.rtype.k == KBool || c.rtype.k == KInt) {
			ok := true
			for _, p := range c.ptypes {
				if p.k != KBool && p.k != KInt {
					ok = false
				}
			}
			if ok && w.e.pureFn(c.fn, 0) {
				c.pure = 1
				w.e.pureMu.Lock()
				c.pure1v = w.e.pureAlloc[c.fn]
				w.e.pureMu.Unlock()
			}
		}
	}
	return c.pure == 1
}

func (w *W) mergeCall(c *Callee, args []Value) (Value, bool) {
	key := fmt.Appendf(nil, "%p", c)
	for _, a := range args {
		if t, ok := a.p.(*Term); ok {
			if c.pure1v && len(t.supp) > 1 {
				return Value{}, false
			}
			key = append(key, 't')
			key = binary.LittleEndian.AppendUint32(key, uint32(t.id))
		} else {
			key = append(key, 'c')
			key = binary.LittleEndian.AppendUint64(key, a.n)
		}
	}
	if t, ok := w.merge[string(key)]; ok {
		if t == nil {
			return Value{}, false
		}
		w.stat.MergeHits++
		return w.val(t, c.rtype), true
	}
	t := w.exploreMerge(c, args)
	w.merge[string(key)] = t
	if t == nil {
		return Value{}, false
	}
	w.stat.Merges++
	return w.val(t, c.rtype), true
}

func (w *W) exploreMerge(c *Callee, args []Value) (res *Term) {
	saveCtx, saveSt, saveSteps, saveRet := w.ctx, w.st, w.steps, w.ret
	base := len(w.stack)
	jn := len(w.journal)
	w.ctx = &pathCtx{nested: true, base: base}
	defer func() {
		r := recover()
		w.undoTo(jn)
		w.stack = w.stack[:base]
		w.ctx, w.st, w.steps, w.ret = saveCtx, saveSt, saveSteps, saveRet
		w.uncaught = false
		if r != nil {
			switch r := r.(type) {
			case mergeAbort:
				res = nil
			case pathEnd:
				res = nil
			case inconclusive:
				res = nil
			default:
				panic(r)
			}
		}
	}()
	type alt struct {
		cond *Term
		val  *Term
	}
	var alts []alt
	nf := w.newFrame(c.code)
	copy(nf.regs, args)
	nf.dst = -1
	w.push(nf)
	w.st.journal = len(w.journal)
	limit := w.steps + 200000
	for {
		save := w.stepLimit
		w.stepLimit = limit
		w.run(base)
		w.stepLimit = save
		v := w.term(w.ret, c.rtype)
		cond := w.tt.tru
		// path condition: domain constraints and pc terms
		for i := range w.ctx.dom {
			d := w.ctx.dom[i]
			if d.empty() {
				continue
			}
			vt := w.tt.varOf(int32(i))
			if vt.w == 8 && d != vt.vi.dom {
				cond = w.tt.And(cond, w.tt.InSet(vt, d))
			}
		}
		for _, p := range w.ctx.pc {
			cond = w.tt.And(cond, p)
		}
		alts = append(alts, alt{cond, v})
		if len(alts) > 96 {
			return nil
		}
		n := len(w.ctx.snaps)
		if n == 0 {
			break
		}
		s := w.ctx.snaps[n-1]
		w.ctx.snaps = w.ctx.snaps[:n-1]
		w.restore(s)
	}
	// group equal values
	if c.rtype.k == KBool {
		r := w.tt.fls
		for _, a := range alts {
			r = w.tt.Or(r, w.tt.And(a.cond, a.val))
		}
		return r
	}
	r := alts[len(alts)-1].val
	for i := len(alts) - 2; i >= 0; i-- {
		r = w.tt.Ite(alts[i].cond, alts[i].val, r)
	}
	return r
}

// ---- exploration driver ----

type job struct {
	prefix []byte
}

type PathResult struct {
	kind   string // "ok", "panic", "assert", ...
	msg    string
	inputs []Input
	obs    []Obs
}

type Input struct {
	Label string `json:"l"`
	V     uint64 `json:"v"`
}

type Obs struct {
	Label string `json:"l"`
	V     string `json:"v"`
}

type queue struct {
	mu   sync.Mutex
	cond *sync.Cond
	jobs []job
	idle int32
	n    int
	done bool
}

func (e *Engine) maybeDonate(w *W) {
	q := e.q
	if atomic.LoadInt32(&q.idle) == 0 || len(w.ctx.snaps) < 2 {
		return
	}
	s := w.ctx.snaps[0]
	prefix := append(append([]byte(nil), w.ctx.dec[:s.st.ndec]...), s.redo...)
	q.mu.Lock()
	if len(q.jobs) >= int(atomic.LoadInt32(&q.idle)) {
		q.mu.Unlock()
		return
	}
	q.jobs = append(q.jobs, job{prefix})
	q.cond.Signal()
	q.mu.Unlock()
	copy(w.ctx.snaps, w.ctx.snaps[1:])
	w.ctx.snaps[len(w.ctx.snaps)-1] = nil
	w.ctx.snaps = w.ctx.snaps[:len(w.ctx.snaps)-1]
}

func (q *queue) get() (job, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	atomic.AddInt32(&q.idle, 1)
	for len(q.jobs) == 0 {
		if q.done {
			return job{}, false
		}
		if int(atomic.LoadInt32(&q.idle)) == q.n {
			q.done = true
			q.cond.Broadcast()
			return job{}, false
		}
		q.cond.Wait()
	}
	j := q.jobs[len(q.jobs)-1]
	q.jobs = q.jobs[:len(q.jobs)-1]
	atomic.AddInt32(&q.idle, -1)
	return j, true
}

func (q *queue) stop() {
	q.mu.Lock()
	q.done = true
	q.jobs = nil
	q.cond.Broadcast()
	q.mu.Unlock()
}

// runJob explores the subtree below a decision prefix.
func (w *W) runJob(h *Harness, j job) {
	w.undoTo(0)
	w.stack = w.stack[:0]
	w.nvars = 0
	w.obs = w.obs[:0]
	w.steps = 0
	w.ctx = &pathCtx{forced: j.prefix, mvalid: true}
	fn := h.fn
	nf := w.newFrame(w.compile(fn))
	for i, p := range fn.Params {
		if i == 0 && w.e.types.get(p.Type()).k == KInt {
			nf.regs[i] = Value{n: uint64(h.part)}
		}
	}
	nf.dst = -1
	w.st = stepState{journal: len(w.journal)}
	w.uncaught = false
	first := true
	for {
		reason := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case pathEnd:
						reason = r.reason
					case mergeAbort:
						panic(inconclusive{"merge abort outside merge: " + r.why})
					case inconclusive:
						if w.e.debugTrace {
							r.msg += "\n" + w.backtrace()
						}
						if r.fatal() || !w.e.noteUnsupported(r.msg) {
							panic(r)
						}
						reason = "unsupported"
					default:
						panic(r)
					}
				}
			}()
			if first {
				w.push(nf)
				first = false
			}
			w.run(0)
		}()
		w.endPath(h, reason)
		n := len(w.ctx.snaps)
		if n == 0 {
			return
		}
		s := w.ctx.snaps[n-1]
		w.ctx.snaps[n-1] = nil
		w.ctx.snaps = w.ctx.snaps[:n-1]
		w.uncaught = false
		w.restore(s)
	}
}

func (w *W) endPath(h *Harness, reason string) {
	w.stat.Steps += w.steps
	if w.steps > w.stat.MaxPathSteps {
		w.stat.MaxPathSteps = w.steps
	}
	switch reason {
	case "infeasible", "assume":
		w.stat.Infeasible++
		return
	case "violation-stop", "unsupported":
		w.stat.Paths++
		return
	}
	w.stat.Paths++
	if w.uncaught {
		msg := w.panicString(w.uncaughtVal)
		w.e.report(w, h, "panic", "uncaught panic: "+msg, nil)
		return
	}
	if reason == "step-limit" {
		w.e.report(w, h, "nonterm", fmt.Sprintf("no termination within %d interpreted steps\n%s", w.stepLimit, w.backtrace()), nil)
		return
	}
	if reason == "stack-overflow" {
		w.e.report(w, h, "overflow", fmt.Sprintf("call depth exceeds %d frames\n%s", w.maxDepth, w.backtrace()), nil)
		return
	}
	w.e.pathDone(w, h, reason)
}

func (w *W) panicString(v Value) string {
	if v.p == nil {
		return "nil"
	}
	i, ok := v.p.(*Iface)
	if !ok {
		return "?"
	}
	switch i.t.k {
	case KString:
		return w.strUnderModel(strOf(i.v))
	case KInt:
		return fmt.Sprint(int64(i.v.n))
	case KPtr:
		if p, ok := i.v.p.(*Value); ok {
			if a, ok := p.p.(*Agg); ok && len(a.e) > 0 {
				if s, ok := a.e[0].p.(*Str); ok {
					return i.t.String() + ": " + w.strUnderModel(s)
				}
			}
		}
	}
	return i.t.String()
}

func (w *W) strUnderModel(s *Str) string {
	b := []byte(s.s)
	for i := range b {
		if s.sym != nil && s.sym[i] != nil {
			b[i] = byte(w.tt.eval(s.sym[i], w.modelVal))
		}
	}
	return string(b)
}

// inputs returns the current model as an input vector.
func (w *W) inputs(model []uint64) []Input {
	r := make([]Input, 0, w.nvars)
	for i := 0; i < w.nvars; i++ {
		v := w.tt.varOf(int32(i))
		if !strings.HasPrefix(v.vi.label, "#") { // not an input of the harness
			r = append(r, Input{v.vi.label, model[i]})
		}
	}
	return r
}

func decodeRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

// roundCap mimics the allocator's size classes for byte slices.
func roundCap(n int) int {
	if n <= 0 {
		return 0
	}
	return sizeClass(n)
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func sizeClass(n int) int {
	if n > 32768 {
		return (n + 8191) &^ 8191
	}
	i := sort.SearchInts(sizeClasses, n)
	return sizeClasses[i]
}

func bitLen(x uint64) int { return bits.Len64(x) }
