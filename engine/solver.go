package main

// Persistent SMT solver process (z3 -in by default; cvc5 --incremental or
// z3-new for cross-checking).

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	kind    string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	queries int64
	nsat    int64
	nunsat  int64
	nunk    int64
	time    time.Duration
	maxT    time.Duration
	timeout int // ms
	n       int
	dump    io.Writer
}

func newSolver(kind string, timeoutMs int) *Solver {
	return &Solver{kind: kind, timeout: timeoutMs}
}

func (s *Solver) start() error {
	var cmd *exec.Cmd
	switch s.kind {
	case "cvc5":
		cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout), "-q")
	case "z3-new":
		cmd = exec.Command("z3-new", "-in", fmt.Sprintf("-t:%d", s.timeout))
	default:
		cmd = exec.Command("z3", "-in", fmt.Sprintf("-t:%d", s.timeout))
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	s.n = 0
	if s.kind == "cvc5" {
		io.WriteString(s.in, "(set-logic ALL)\n")
	}
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bvLit(c uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, c)
	}
	return fmt.Sprintf("#b%0*b", int(w), c)
}

type smtPrinter struct {
	sb   *strings.Builder
	done map[*Term]string
	n    int
	vars map[int32]*Term
}

func (p *smtPrinter) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c != 0 {
				return "true"
			}
			return "false"
		}
		if t.w == wF64 {
			return "((_ to_fp 11 53) " + bvLit(t.c, 64) + ")"
		}
		return bvLit(t.c, t.w)
	case OVar:
		p.vars[int32(t.c)] = t
		return "v" + strconv.Itoa(int(t.c))
	}
	if r, ok := p.done[t]; ok {
		return r
	}
	e := p.expr(t)
	name := "t" + strconv.Itoa(p.n)
	p.n++
	sort := "Bool"
	if t.w == wF64 {
		sort = "Float64"
	} else if t.w > 0 {
		sort = "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
	}
	fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", name, sort, e)
	p.done[t] = name
	return name
}

func setRanges(s *Set256) [][2]int {
	var r [][2]int
	for i := 0; i < 256; i++ {
		if s.has(uint64(i)) {
			j := i
			for j+1 < 256 && s.has(uint64(j+1)) {
				j++
			}
			r = append(r, [2]int{i, j})
			i = j
		}
	}
	return r
}

func inSetExpr(v string, s *Set256) string {
	var parts []string
	for _, r := range setRanges(s) {
		switch {
		case r[0] == r[1]:
			parts = append(parts, fmt.Sprintf("(= %s #x%02x)", v, r[0]))
		case r[0] == 0 && r[1] == 255:
			return "true"
		case r[0] == 0:
			parts = append(parts, fmt.Sprintf("(bvule %s #x%02x)", v, r[1]))
		case r[1] == 255:
			parts = append(parts, fmt.Sprintf("(bvuge %s #x%02x)", v, r[0]))
		default:
			parts = append(parts, fmt.Sprintf("(and (bvuge %s #x%02x) (bvule %s #x%02x))", v, r[0], v, r[1]))
		}
	}
	switch len(parts) {
	case 0:
		return "false"
	case 1:
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

var bvName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE"}

func (p *smtPrinter) expr(t *Term) string {
	switch t.op {
	case OBVNot:
		return "(bvnot " + p.ref(t.a) + ")"
	case ONeg:
		return "(bvneg " + p.ref(t.a) + ")"
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, p.ref(t.a))
	case OIte:
		return "(ite " + p.ref(t.a) + " " + p.ref(t.b) + " " + p.ref(t.d) + ")"
	case OTable:
		idx := p.ref(t.a)
		var sb strings.Builder
		n := 0
		lit := func(v uint64) string {
			if t.w == 0 {
				if v != 0 {
					return "true"
				}
				return "false"
			}
			if t.w == wF64 {
				return "((_ to_fp 11 53) " + bvLit(v, 64) + ")"
			}
			return bvLit(v, t.w)
		}
		for i := 0; i < len(t.tbl)-1; i++ {
			if uint64(i) < t.a.lo || uint64(i) > t.a.hi {
				continue
			}
			fmt.Fprintf(&sb, "(ite (= %s %s) %s ", idx, bvLit(uint64(i), t.a.w), lit(t.tbl[i]))
			n++
		}
		sb.WriteString(lit(t.tbl[len(t.tbl)-1]))
		sb.WriteString(strings.Repeat(")", n))
		return sb.String()
	case OBNot:
		return "(not " + p.ref(t.a) + ")"
	case OInSet:
		return inSetExpr(p.ref(t.a), &t.set)
	case OFNeg:
		return "(fp.neg " + p.ref(t.a) + ")"
	case OFFromS:
		return "((_ to_fp 11 53) RNE " + p.ref(t.a) + ")"
	case OFFromU:
		return "((_ to_fp_unsigned 11 53) RNE " + p.ref(t.a) + ")"
	case OFBits:
		return "((_ to_fp 11 53) " + p.ref(t.a) + ")"
	case OFToBit:
		return "(fp.to_ieee_bv " + p.ref(t.a) + ")"
	}
	if n, ok := bvName[t.op]; ok {
		return "(" + n + " " + p.ref(t.a) + " " + p.ref(t.b) + ")"
	}
	panic(fmt.Sprintf("smt: op %d", t.op))
}

// check decides the conjunction of cs (plus variable domains given by dom).
func (s *Solver) check(tt *TermTab, cs []*Term, dom func(int32) *Set256, wantModel bool) (SatRes, map[int32]uint64) {
	if s.cmd == nil || s.n > 20000 {
		s.close()
		if err := s.start(); err != nil {
			panic(inconclusive{"cannot start solver " + s.kind + ": " + err.Error()})
		}
	}
	s.n++
	s.queries++
	var sb strings.Builder
	p := &smtPrinter{sb: &strings.Builder{}, done: map[*Term]string{}, vars: map[int32]*Term{}}
	var asserts []string
	for _, c := range cs {
		asserts = append(asserts, "(assert "+p.ref(c)+")\n")
	}
	var ids []int
	for i := range p.vars {
		ids = append(ids, int(i))
	}
	sort.Ints(ids)
	sb.WriteString("(push 1)\n")
	for _, i := range ids {
		v := p.vars[int32(i)]
		fmt.Fprintf(&sb, "(declare-const v%d (_ BitVec %d))\n", i, v.w)
		if v.w == 8 {
			d := v.vi.dom
			if dom != nil {
				if dd := dom(int32(i)); dd != nil {
					d = and256(d, *dd)
				}
			}
			if d != full256 {
				fmt.Fprintf(&sb, "(assert %s)\n", inSetExpr("v"+strconv.Itoa(i), &d))
			}
		} else {
			if v.vi.lo != 0 {
				fmt.Fprintf(&sb, "(assert (bvuge v%d %s))\n", i, bvLit(v.vi.lo, v.w))
			}
			if v.vi.hi != mask(v.w) {
				fmt.Fprintf(&sb, "(assert (bvule v%d %s))\n", i, bvLit(v.vi.hi, v.w))
			}
		}
	}
	sb.WriteString(p.sb.String())
	for _, a := range asserts {
		sb.WriteString(a)
	}
	sb.WriteString("(check-sat)\n(echo \"@@\")\n")
	if s.dump != nil {
		io.WriteString(s.dump, sb.String())
	}
	t0 := time.Now()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.close()
		s.nunk++
		return Unknown, nil
	}
	lines := s.readTo()
	res := Unknown
	for _, l := range lines {
		if strings.HasPrefix(l, "(error") {
			panic(inconclusive{"solver error: " + l + "\n" + sb.String()})
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
	}
	var model map[int32]uint64
	if res == Sat && wantModel {
		model = map[int32]uint64{}
		if len(ids) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, i := range ids {
				fmt.Fprintf(&q, "v%d ", i)
			}
			q.WriteString("))\n(echo \"@@\")\n")
			io.WriteString(s.in, q.String())
			txt := strings.Join(s.readTo(), " ")
			parseModel(txt, model)
			if len(model) != len(ids) {
				panic(inconclusive{"cannot read solver model: " + txt})
			}
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	d := time.Since(t0)
	s.time += d
	if d > s.maxT {
		s.maxT = d
	}
	switch res {
	case Sat:
		s.nsat++
	case Unsat:
		s.nunsat++
	default:
		s.nunk++
		s.close() // start over after a timeout
	}
	return res, model
}

func (s *Solver) readTo() []string {
	var r []string
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.close()
			return r
		}
		l = strings.TrimSpace(l)
		if l == "@@" || l == "\"@@\"" {
			return r
		}
		if l != "" {
			r = append(r, l)
		}
	}
}

func parseModel(txt string, m map[int32]uint64) {
	// ((v0 #x41) (v1 #b0001))
	fs := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(fs); {
		if fs[i][0] != 'v' {
			i++
			continue
		}
		n, err := strconv.Atoi(fs[i][1:])
		if err != nil {
			i++
			continue
		}
		v := fs[i+1]
		var x uint64
		switch {
		case strings.HasPrefix(v, "#x"):
			x, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			err = fmt.Errorf("bad")
		}
		if err == nil {
			m[int32(n)] = x
		}
		i += 2
	}
}

type inconclusive struct{ msg string }

// fatal: the whole exploration, not one path, cannot continue.
func (i inconclusive) fatal() bool {
	return i.msg == "" || strings.HasPrefix(i.msg, "time budget") || strings.HasPrefix(i.msg, "stopped") || strings.HasPrefix(i.msg, "audit") || strings.HasPrefix(i.msg, "solvers disagree")
}

func (e *Engine) noteUnsupported(msg string) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.unsupN++
	if e.unsup == "" {
		e.unsup = msg
	}
	return e.unsupN <= 200
}
