package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives one long-lived SMT solver process over SMT-LIB 2 text.
type Solver struct {
	name      string
	argv      []string
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	Queries   int
	Sat       int
	Unsat     int
	Unknown   int
	Time      time.Duration
	Presolved int
	Refined   int
	Timeout   time.Duration
	Relax     bool // try queries with numbers relaxed to reals first
	RelaxOnly bool // and accept a satisfiable relaxation as satisfiable
	Relaxed   int
	dumpN     int
}

func NewSolver(name string, timeout time.Duration) *Solver {
	s := &Solver{name: name, Timeout: timeout}
	switch name {
	case "z3", "z3-new":
		s.argv = []string{name, "-in", "-smt2"}
	case "cvc5":
		s.argv = []string{"cvc5", "--lang=smt2", "--incremental", "--produce-models", fmt.Sprintf("--tlimit-per=%d", timeout.Milliseconds())}
	default:
		panic("unknown solver " + name)
	}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<20)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// relaxTimeout limits relaxed queries, which are linear and usually easy.
const relaxTimeout = 10 * time.Second

type emitter struct {
	sent    bool // the script has been sent to the solver
	c       *Ctx
	sb      strings.Builder
	doneB   map[*B]bool
	doneR   map[*RV]bool
	vars    []*B
	rvs     []*RV
	lin     bool // reals occur
	nl      bool // nonlinear or integer atoms occur
	skipped bool
	relaxed bool              // bits of a number are replaced by a real in its range
	known   map[*B]bool       // in a relaxed query: bits settled by the assertions
	groups  map[string]string // in a relaxed query: the reals standing for numbers
	loose   bool              // a number was replaced
	gsb     strings.Builder
}

func ratStr(r *big.Rat) string {
	var s string
	a := rabs(r)
	if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		return "(- " + s + ")"
	}
	return s
}

func (e *emitter) ref(b *B) string {
	switch b.k {
	case kConst:
		return fmt.Sprint(b.val)
	case kNot:
		return "(not " + e.ref(b.a[0]) + ")"
	}
	return fmt.Sprintf("n%d", b.id)
}

func (e *emitter) linStr(l *Lin) string {
	if l.isConst() {
		return ratStr(l.k)
	}
	var sb strings.Builder
	sb.WriteString("(+ ")
	sb.WriteString(ratStr(l.k))
	bt := l.bt
	if e.relaxed {
		bt = e.relaxBits(l, &sb)
	}
	for _, t := range bt {
		fmt.Fprintf(&sb, " (ite %s %s 0.0)", e.ref(t.b), ratStr(t.c))
	}
	for _, t := range l.rt {
		fmt.Fprintf(&sb, " (* %s r%d)", ratStr(t.c), t.v.id)
	}
	sb.WriteString(")")
	return sb.String()
}

// relaxBits writes runs of bits of one number as a multiple of a real symbol
// in the number's range, and returns the remaining bits.
func (e *emitter) relaxBits(l *Lin, sb *strings.Builder) []ltermB {
	runs, rest := l.runs, l.loose
	plain := true
	for _, t := range l.bt {
		if _, ok := e.known[t.b]; ok {
			plain = false
			break
		}
	}
	if !plain {
		var bt []ltermB
		for _, t := range l.bt {
			if v, ok := e.known[t.b]; !ok {
				bt = append(bt, t)
			} else if v {
				fmt.Fprintf(sb, " %s", ratStr(t.c))
			}
		}
		runs, rest = bitRuns(bt)
	} else if !l.runsDone {
		l.runs, l.loose = bitRuns(l.bt)
		l.runsDone = true
		runs, rest = l.runs, l.loose
	}
	for _, r := range runs {
		nm, ok := e.groups[r.key]
		if !ok {
			nm = fmt.Sprintf("g%d", len(e.groups))
			e.groups[r.key] = nm
			lo, hi := "0.0", new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(r.n)), big.NewInt(1)))
			if r.signed {
				h := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(r.n-1)))
				lo, hi = ratStr(rneg(h)), rsub(h, rat(1))
			}
			fmt.Fprintf(&e.gsb, "(declare-const %s Real)\n(assert (and (<= %s %s) (<= %s %s)))\n", nm, lo, nm, nm, ratStr(hi))
			e.loose = true
		}
		sb.WriteString(" (* ")
		sb.WriteString(r.weight)
		sb.WriteByte(' ')
		sb.WriteString(nm)
		sb.WriteByte(')')
	}
	return rest
}

// bitRuns finds the runs of bits of one number among weighted bits.
func bitRuns(bt []ltermB) (runs []bitRun, rest []ltermB) {
	type bit struct {
		i int
		t ltermB
	}
	by := map[string][]bit{}
	var order []string
	for _, t := range bt {
		k := -1
		if t.b.k == kVar {
			k = strings.LastIndexByte(t.b.name, '.')
		}
		if k < 0 {
			rest = append(rest, t)
			continue
		}
		i, err := strconv.Atoi(t.b.name[k+1:])
		if err != nil {
			rest = append(rest, t)
			continue
		}
		p := t.b.name[:k]
		if by[p] == nil {
			order = append(order, p)
		}
		by[p] = append(by[p], bit{i, t})
	}
	for _, p := range order {
		bs := by[p]
		sort.Slice(bs, func(i, j int) bool { return bs[i].i < bs[j].i })
		for len(bs) > 0 {
			n := 1
			w := new(big.Rat).Set(bs[0].t.c)
			signed := false
			for n < len(bs) && bs[n].i == bs[n-1].i+1 && !signed {
				w = rmul(w, rat(2))
				if bs[n].t.c.Cmp(w) != 0 {
					if bs[n].t.c.Cmp(rneg(w)) != 0 {
						break
					}
					signed = true
				}
				n++
			}
			if n < 3 {
				rest = append(rest, bs[0].t)
				bs = bs[1:]
				continue
			}
			runs = append(runs, bitRun{fmt.Sprintf("%s/%d/%d/%v", p, bs[0].i, n, signed), n, signed, ratStr(bs[0].t.c)})
			bs = bs[n:]
		}
	}
	return
}

func (e *emitter) visitLin(l *Lin) {
	e.lin = true
	for _, t := range l.bt {
		e.visit(t.b)
	}
	for _, t := range l.rt {
		e.visitRV(t.v)
	}
}

func (e *emitter) visitRV(v *RV) {
	if e.doneR[v] {
		return
	}
	e.doneR[v] = true
	e.rvs = append(e.rvs, v)
	if v.l1 != nil {
		e.visitLin(v.l1)
	}
	if v.l2 != nil {
		e.visitLin(v.l2)
	}
	if v.g != nil {
		e.visit(v.g)
	}
	switch v.k {
	case rVar, rFn:
		fmt.Fprintf(&e.sb, "(declare-const r%d Real)\n", v.id)
		if v.isInt {
			e.nl = true
			fmt.Fprintf(&e.sb, "(assert (is_int r%d))\n", v.id)
		}
	case rMul:
		e.nl = true
		fmt.Fprintf(&e.sb, "(define-fun r%d () Real (* %s %s))\n", v.id, e.linStr(v.l1), e.linStr(v.l2))
	case rDiv:
		e.nl = true
		fmt.Fprintf(&e.sb, "(declare-const r%d Real)\n", v.id)
		fmt.Fprintf(&e.sb, "(assert (= (* r%d %s) %s))\n", v.id, e.linStr(v.l2), e.linStr(v.l1))
	case rFloor:
		e.nl = true
		fmt.Fprintf(&e.sb, "(declare-const i%d Int)\n(define-fun r%d () Real (to_real i%d))\n", v.id, v.id, v.id)
		fmt.Fprintf(&e.sb, "(assert (and (<= r%d %s) (< %s (+ r%d 1.0))))\n", v.id, e.linStr(v.l1), e.linStr(v.l1), v.id)
	case rIte:
		fmt.Fprintf(&e.sb, "(define-fun r%d () Real (ite %s %s %s))\n", v.id, e.ref(v.g), e.linStr(v.l1), e.linStr(v.l2))
	}
	if v.lo != nil {
		fmt.Fprintf(&e.sb, "(assert (<= %s r%d))\n", ratStr(v.lo), v.id)
	}
	if v.hi != nil {
		fmt.Fprintf(&e.sb, "(assert (<= r%d %s))\n", v.id, ratStr(v.hi))
	}
}

func (e *emitter) visit(b *B) {
	if b.k == kConst || e.doneB[b] {
		return
	}
	e.doneB[b] = true
	for _, x := range b.a {
		e.visit(x)
	}
	switch b.k {
	case kNot:
		return
	case kVar:
		e.vars = append(e.vars, b)
		fmt.Fprintf(&e.sb, "(declare-const n%d Bool)\n", b.id)
		return
	case kCmp:
		if len(b.lin.rt) == 0 && !e.relaxed {
			// bits only: by bit arithmetic
			if g, ok := e.c.pbCmp(b.cmp, b.lin); ok {
				e.visit(g)
				fmt.Fprintf(&e.sb, "(define-fun n%d () Bool %s)\n", b.id, e.ref(g))
				return
			}
		}
		e.visitLin(b.lin)
		if u := linUnit(b.lin); u != nil && e.relaxed && b.cmp != cmpEQ {
			// the term is k plus a multiple of u, so it cannot lie strictly
			// between the two neighbours of the bound
			q := new(big.Rat).Quo(b.lin.k, u)
			r := rsub(q, new(big.Rat).SetInt(new(big.Int).Div(q.Num(), q.Denom()))) // value = u*(integer+r)
			top := rmul(u, r)                                                       // least possible value >= 0
			at := rsub(top, u)                                                      // greatest possible value < 0
			if r.Sign() == 0 && b.cmp == cmpLE {
				at, top = new(big.Rat), u
			}
			t := e.linStr(b.lin)
			fmt.Fprintf(&e.sb, "(define-fun n%d () Bool (<= %s %s))\n(assert (or n%d (<= %s %s)))\n", b.id, t, ratStr(at), b.id, ratStr(top), t)
			return
		}
		op := []string{"<=", "<", "="}[b.cmp]
		fmt.Fprintf(&e.sb, "(define-fun n%d () Bool (%s %s 0.0))\n", b.id, op, e.linStr(b.lin))
		return
	}
	op := map[bkind]string{kAnd: "and", kXor: "xor", kIte: "ite"}[b.k]
	fmt.Fprintf(&e.sb, "(define-fun n%d () Bool (%s", b.id, op)
	for _, x := range b.a {
		e.sb.WriteString(" ")
		e.sb.WriteString(e.ref(x))
	}
	e.sb.WriteString("))\n")
}

// Script builds the SMT-LIB text asserting all formulas.
func (c *Ctx) Script(fs []*B) (string, *emitter) { return c.script(fs, false, false) }

// script leaves out the nonlinear facts about function symbols when light is
// set, and with relaxed replaces numbers by reals in their range; an unsat
// answer to the weaker query is still an unsat answer.
func (c *Ctx) script(fs []*B, light, relaxed bool) (string, *emitter) {
	return c.scriptWith(fs, nil, light, relaxed)
}

// scriptWith also defines further conditions, without asserting them.
func (c *Ctx) scriptWith(fs, more []*B, light, relaxed bool) (string, *emitter) {
	e := &emitter{c: c, doneB: map[*B]bool{}, doneR: map[*RV]bool{}, relaxed: relaxed}
	if relaxed {
		e.known, e.groups = map[*B]bool{}, map[string]string{}
		for _, f := range flattenAnd(fs) {
			switch {
			case f.k == kVar:
				e.known[f] = true
			case f.k == kNot && f.a[0].k == kVar:
				e.known[f.a[0]] = false
			}
		}
	}
	for _, f := range fs {
		e.visit(f)
	}
	for _, f := range more {
		e.visit(f)
	}
	used := make([]bool, len(c.axioms))
	var extra []*B
	for changed := true; changed; {
		changed = false
		for i := range c.axioms {
			if used[i] {
				continue
			}
			ax := &c.axioms[i]
			hit := false
			for _, b := range ax.bs {
				if e.doneB[b] {
					hit = true
				}
			}
			for _, r := range ax.rvs {
				if e.doneR[r] {
					hit = true
				}
			}
			if hit && light && ax.hard {
				used[i] = true
				e.skipped = true
				continue
			}
			if hit {
				used[i] = true
				changed = true
				extra = append(extra, ax.b)
				e.visit(ax.b)
			}
		}
	}
	for _, f := range extra {
		fmt.Fprintf(&e.sb, "(assert %s)\n", e.ref(f))
	}
	for _, f := range fs {
		fmt.Fprintf(&e.sb, "(assert %s)\n", e.ref(f))
	}
	return e.gsb.String() + e.sb.String(), e
}

// Check decides the conjunction of fs. Result is "sat", "unsat" or "unknown".
func (s *Solver) Check(c *Ctx, fs []*B, wantModel bool) (string, *Assign) {
	var subs []subst
	if c.hasXor(fs) {
		fs, subs = c.presolve(fs)
		if len(fs) == 1 && fs[0] == c.F {
			s.Presolved++
			return "unsat", nil
		}
	}
	var rec *reparamRec
	if len(c.axioms) == 0 && len(c.defs) == 0 {
		fs, rec = c.reparam(fs)
	}
	if s.Relax {
		script, e := c.script(fs, true, true)
		if e.loose {
			t := s.Timeout
			if t > relaxTimeout {
				s.Timeout = relaxTimeout
			}
			ans, _ := s.run(script, e, false)
			s.Timeout = t
			if ans == "unsat" {
				s.Relaxed++
				return ans, nil
			}
			if s.RelaxOnly && ans == "sat" {
				return ans, nil
			}
		}
	}
	script, e := c.script(fs, true, false)
	if e.skipped {
		ans, as := s.run(script, e, true)
		if ans == "unsat" {
			return ans, nil
		}
		if as != nil {
			// the evaluator computes function symbols, so a model it confirms is one
			ev, ok := newEval(c, as), true
			for _, f := range fs {
				ok = ok && ev.B(f)
			}
			if ok {
				return ans, as
			}
		}
		script, e = c.script(fs, false, false)
	}
	ans, as := s.run(script, e, wantModel || len(c.rounds) > 0 || len(c.steps) > 0)
	// A model in which a rounding error is not the one its operand has is cut
	// off by a lemma giving the error for that operand.
	for k := 0; k < 40 && ans == "sat" && as != nil; k++ {
		ev := newEval(c, as)
		ok := true
		for _, f := range fs {
			ok = ok && ev.B(f)
		}
		if ok || !c.refine(e, as, ev) {
			break
		}
		s.Refined++
		script, e = c.script(fs, false, false)
		ans, as = s.run(script, e, true)
	}
	if as != nil {
		if rec != nil {
			rec.restore(as)
		}
		for i := len(subs) - 1; i >= 0; i-- {
			as.b[subs[i].v.name] = newEval(c, as).B(subs[i].e)
		}
	}
	return ans, as
}

// Alternatives tells which of several conditions are possible under another,
// with numbers relaxed to reals; ok is false where the relaxation does not apply.
func (s *Solver) Alternatives(c *Ctx, pc *B, conds []*B) (feasible []bool, ok bool) {
	script, e := c.scriptWith([]*B{pc}, conds, true, true)
	if !e.loose && e.skipped || !strings.HasPrefix(s.name, "z3") {
		return nil, false
	}
	feasible = make([]bool, len(conds))
	left := map[string]int{}
	for i, g := range conds {
		script += fmt.Sprintf("(define-fun alt%d () Bool %s)\n", i, e.ref(g))
		left[fmt.Sprintf("alt%d", i)] = i
	}
	names := func() string {
		var l []string
		for n := range left {
			l = append(l, n)
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	for len(left) > 0 {
		n := names()
		ans, sel := s.runValues(script+"(assert (or "+n+"))\n", e, n)
		switch {
		case ans == "unsat":
			if e.loose {
				s.Relaxed++
			}
			return feasible, true
		case ans != "sat" || len(sel) == 0:
			for _, i := range left {
				feasible[i] = true
			}
			return feasible, true
		}
		for _, n := range sel {
			feasible[left[n]] = true
			delete(left, n)
		}
		script = ""
	}
	return feasible, true
}

// runValues sends a script, continuing the session if e is a continuation, and
// returns the names that are true in the model.
func (s *Solver) runValues(script string, e *emitter, names string) (string, []string) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.Unknown++
			return "unknown", nil
		}
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if !e.sent {
		e.sent = true
		hdr := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", s.Timeout.Milliseconds())
		if e.lin && !e.nl {
			hdr += "(set-logic QF_LRA)\n"
		}
		script = hdr + script
	}
	ans, ok := s.exchange(script+"(check-sat)\n(echo \"@@1\")\n", "@@1")
	if !ok || strings.Contains(ans, "(error") {
		s.Close()
		s.Unknown++
		return "unknown", nil
	}
	switch ans = strings.TrimSpace(ans); ans {
	case "unsat":
		s.Unsat++
		return ans, nil
	case "sat":
		s.Sat++
	default:
		s.Unknown++
		return "unknown", nil
	}
	vals, ok := s.exchange("(get-value ("+names+"))\n(echo \"@@2\")\n", "@@2")
	if !ok {
		s.Close()
		return "sat", nil
	}
	var sel []string
	toks := tokenize(vals)
	for i := 0; i+1 < len(toks); i++ {
		if strings.HasPrefix(toks[i], "alt") && toks[i+1] == "true" {
			sel = append(sel, toks[i])
		}
	}
	return "sat", sel
}

// RelaxedUnsat decides the conjunction with numbers relaxed to reals, and tells
// whether even that cannot be satisfied.
func (s *Solver) RelaxedUnsat(c *Ctx, fs []*B) bool {
	script, e := c.script(fs, true, true)
	t := s.Timeout
	if t > relaxTimeout {
		s.Timeout = relaxTimeout
	}
	ans, _ := s.run(script, e, false)
	s.Timeout = t
	if ans == "unsat" && e.loose {
		s.Relaxed++
	}
	if d := os.Getenv("VSYM_RELAXED"); d != "" && ans != "unsat" {
		s.dumpN++
		os.WriteFile(fmt.Sprintf("%s/r%d.smt2", d, s.dumpN), []byte(script), 0o644)
	}
	return ans == "unsat"
}

// refine adds, for every rounding error in the query to which the model gives
// another value than its operand has, the fact that this operand has that error.
func (c *Ctx) refine(e *emitter, as *Assign, ev *evaluator) bool {
	added := false
	for _, u := range e.vars {
		ls, ok := c.steps[u]
		if !ok {
			continue
		}
		// which value the function takes near a step, for this argument
		at := newEval(c, as)
		for _, b := range ls {
			at.memo[b] = as.b[b.name]
		}
		if as.b[u.name] == at.B(u) {
			continue
		}
		lemma := u
		if !at.B(u) {
			lemma = c.Not(u)
		}
		for _, b := range ls {
			if at.B(b) {
				lemma = c.Or(lemma, c.Not(b))
			} else {
				lemma = c.Or(lemma, b)
			}
		}
		c.axioms = append(c.axioms, axiom{b: lemma, bs: []*B{u}})
		added = true
	}
	for _, v := range e.rvs {
		ro, ok := c.rounds[v]
		if !ok || as.r[v.name] == nil {
			continue
		}
		want := ev.RV(v)
		if as.r[v.name].Cmp(want) == 0 {
			continue
		}
		for _, t := range ro.l.rt {
			if _, r := c.rounds[t.v]; !r {
				ok = false // depends on a real symbol: one point of a continuum
			}
		}
		if !ok {
			continue
		}
		val := ev.Lin(ro.l)
		lemma := c.Or(c.Not(c.Cmp(cmpEQ, c.LSub(ro.l, c.LConst(val)))), c.Cmp(cmpEQ, c.LSub(c.LofRV(v), c.LConst(want))))
		if lemma == c.T {
			continue
		}
		c.axioms = append(c.axioms, axiom{b: lemma, rvs: []*RV{v}})
		added = true
	}
	return added
}

// hasXor: is there a top-level parity equation worth eliminating?
func (c *Ctx) hasXor(fs []*B) bool {
	for _, f := range flattenAnd(fs) {
		if x, ok := linearRow(f); ok && len(x.a) > 2 {
			if len(c.axioms) > 0 || len(c.defs) > 0 {
				return false // definitions are triggered by symbol, keep them intact
			}
			return true
		}
	}
	return false
}

func (s *Solver) run(script string, e *emitter, wantModel bool) (string, *Assign) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.Unknown++
			return "unknown", nil
		}
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	var hdr string
	if strings.HasPrefix(s.name, "z3") {
		hdr = fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", s.Timeout.Milliseconds())
		if e != nil && !e.lin {
			hdr += "(set-logic QF_BV)\n"
		} else if e != nil && !e.nl {
			hdr += "(set-logic QF_LRA)\n"
		}
	} else {
		hdr = "(reset)\n(set-option :produce-models true)\n"
		if e != nil && !e.lin {
			hdr += "(set-logic QF_BV)\n"
		} else if e != nil && !e.nl {
			hdr += "(set-logic QF_LRA)\n"
		} else {
			hdr += "(set-logic QF_NIRA)\n"
		}
	}
	full := hdr + script + "(check-sat)\n(echo \"@@1\")\n"
	if d := os.Getenv("VSYM_DUMP"); d != "" {
		s.dumpN++
		os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", d, os.Getpid(), s.dumpN), []byte(full), 0o644)
	}
	ans, ok := s.exchange(full, "@@1")
	if !ok || strings.Contains(ans, "(error") {
		if os.Getenv("VSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", s.name, ok, firstLine(ans))
		}
		s.Close()
		s.Unknown++
		return "unknown", nil
	}
	ans = strings.TrimSpace(ans)
	switch ans {
	case "unsat":
		s.Unsat++
		return "unsat", nil
	case "sat":
		s.Sat++
	default:
		s.Unknown++
		return "unknown", nil
	}
	if !wantModel {
		return "sat", nil
	}
	as := &Assign{b: map[string]bool{}, r: map[string]*big.Rat{}}
	if len(e.vars) > 0 {
		sort.Slice(e.vars, func(i, j int) bool { return e.vars[i].id < e.vars[j].id })
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range e.vars {
			fmt.Fprintf(&sb, "n%d ", v.id)
		}
		sb.WriteString("))\n(echo \"@@2\")\n")
		ans, ok := s.exchange(sb.String(), "@@2")
		if !ok {
			s.Close()
			return "sat", nil
		}
		toks := tokenize(ans)
		names := map[string]string{}
		for _, v := range e.vars {
			names[fmt.Sprintf("n%d", v.id)] = v.name
		}
		for i := 0; i+1 < len(toks); i++ {
			if nm, ok := names[toks[i]]; ok {
				as.b[nm] = toks[i+1] == "true"
			}
		}
	}
	for _, v := range e.rvs {
		if v.k != rVar {
			continue
		}
		ans, ok := s.exchange(fmt.Sprintf("(get-value (r%d))\n(echo \"@@3\")\n", v.id), "@@3")
		if !ok {
			s.Close()
			break
		}
		if r := parseRat(ans); r != nil {
			as.r[v.name] = r
		}
	}
	return "sat", as
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func tokenize(s string) []string {
	return strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(s))
}

// parseRat reads "((rN value))" where value may be nested arithmetic.
func parseRat(s string) *big.Rat {
	s = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s)
	t := strings.Fields(s)
	pos := 0
	// skip "( ( rN"
	for pos < len(t) && (t[pos] == "(" || strings.HasPrefix(t[pos], "r")) {
		if strings.HasPrefix(t[pos], "r") {
			pos++
			break
		}
		pos++
	}
	var parse func() *big.Rat
	parse = func() *big.Rat {
		if pos >= len(t) {
			return nil
		}
		if t[pos] != "(" {
			x := strings.TrimSuffix(t[pos], "?")
			pos++
			r, ok := new(big.Rat).SetString(x)
			if !ok {
				return nil
			}
			return r
		}
		pos++
		if pos >= len(t) {
			return nil
		}
		op := t[pos]
		pos++
		var args []*big.Rat
		for pos < len(t) && t[pos] != ")" {
			a := parse()
			if a == nil {
				return nil
			}
			args = append(args, a)
		}
		pos++
		switch {
		case op == "-" && len(args) == 1:
			return rneg(args[0])
		case op == "/" && len(args) == 2 && args[1].Sign() != 0:
			return new(big.Rat).Quo(args[0], args[1])
		}
		return nil
	}
	return parse()
}

func (s *Solver) exchange(text, mark string) (string, bool) {
	type res struct {
		s  string
		ok bool
	}
	ch := make(chan res, 1)
	in, out := s.in, s.out
	go func() {
		if _, err := io.WriteString(in, text); err != nil {
			ch <- res{"", false}
			return
		}
		var sb strings.Builder
		for {
			line, err := out.ReadString('\n')
			if strings.Contains(line, mark) {
				ch <- res{sb.String(), true}
				return
			}
			sb.WriteString(line)
			if err != nil {
				ch <- res{sb.String(), false}
				return
			}
		}
	}()
	select {
	case r := <-ch:
		return r.s, r.ok
	case <-time.After(s.Timeout + 10*time.Second):
		s.cmd.Process.Kill()
		r := <-ch
		return r.s, false
	}
}
