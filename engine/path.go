package main

// Path mode: a harness that calls sym.Paths() is executed once per path.  At
// every symbolic branch, and wherever a value with few possible cases would
// meet a nonlinear operation, one alternative is chosen and added to the path
// condition; the remaining feasible alternatives are explored by executing the
// harness again.  Alternatives whose path condition is unsatisfiable are
// dropped; an unanswered feasibility query keeps the alternative.

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"strings"
	"time"
)

type decision struct {
	alts []int // feasible alternatives
	cur  int   // index into alts
	wide bool  // the decision divided among the workers of a sharded harness
}

// decide chooses one of mutually exclusive and exhaustive conditions; -1 if
// none is feasible.
func (x *Exec) decide(st *State, conds []*B) int { return x.decideStrict(st, conds, nil) }

// decideStrict asks the unrelaxed query about the alternatives marked.
func (x *Exec) decideStrict(st *State, conds []*B, strict []bool) int {
	for i, g := range conds {
		if x.simp(st.pc, g) == x.c.T {
			return i
		}
	}
	if x.decN < len(x.decs) {
		d := &x.decs[x.decN]
		x.decN++
		if len(d.alts) == 0 {
			st.pc = x.pcAdd(st.pc, x.c.F)
			return -1
		}
		k := d.alts[d.cur]
		st.pc = x.pcAdd(st.pc, x.simp(st.pc, conds[k]))
		return k
	}
	t0 := time.Now()
	var alts []int
	// The alternatives are exhaustive and the path so far is feasible: where one
	// half has nothing feasible, the other needs no query.
	wide := len(conds) >= 6 && x.shards > 1
	for i := range x.decs {
		wide = wide && !x.decs[i].wide
	}
	var mine []int
	for i := range conds {
		if (!wide || i%x.shards == x.shard) && x.simp(st.pc, conds[i]) != x.c.F {
			mine = append(mine, i)
		}
	}
	done := false
	if len(mine) > 2 {
		var cs []*B
		for _, i := range mine {
			cs = append(cs, x.simp(st.pc, conds[i]))
		}
		tm := x.solver.Timeout
		if tm > feasibleTimeout {
			x.solver.Timeout = feasibleTimeout
		}
		fs, ok := x.solver.Alternatives(x.c, st.pc.full, cs)
		x.solver.Timeout = tm
		if done = ok; ok {
			for k, i := range mine {
				if fs[k] && strict != nil && strict[i] {
					tm := x.solver.Timeout
					x.solver.Timeout = 30 * time.Second
					a, _ := x.solver.Check(x.c, []*B{x.pcAdd(st.pc, cs[k]).full}, false)
					x.solver.Timeout = tm
					fs[k] = a != "unsat"
				}
				if fs[k] {
					alts = append(alts, i)
				} else {
					x.prunes++
				}
			}
		}
	}
	var rec func(ix []int, known bool) bool
	rec = func(ix []int, known bool) bool {
		if len(ix) == 0 {
			return false
		}
		var cs []*B
		for _, i := range ix {
			cs = append(cs, conds[i])
		}
		if g := x.simp(st.pc, x.c.OrAll(cs)); g == x.c.F || !known && !x.feasible(x.pcAdd(st.pc, g)) {
			x.prunes += len(ix)
			return false
		}
		if len(ix) == 1 {
			if strict != nil && strict[ix[0]] {
				tm := x.solver.Timeout
				x.solver.Timeout = 30 * time.Second
				a, _ := x.solver.Check(x.c, []*B{x.pcAdd(st.pc, x.simp(st.pc, cs[0])).full}, false)
				x.solver.Timeout = tm
				if a == "unsat" {
					x.prunes++
					return false
				}
			}
			alts = append(alts, ix[0])
			return true
		}
		m := len(ix) / 2
		left := rec(ix[:m], false)
		right := rec(ix[m:], known && !left)
		return left || right
	}
	if !done {
		rec(mine, !wide)
	}
	x.decs = append(x.decs, decision{alts: alts, wide: wide})
	if os.Getenv("VSYM_PATH") != "" {
		fn := x.frames[len(x.frames)-1]
		fmt.Fprintf(os.Stderr, "path %d decision %d in %s: %d of %d feasible, %v\n", x.run, x.decN, fn.Name(), len(alts), len(conds), time.Since(t0))
	}
	x.decN++
	if len(alts) == 0 {
		st.pc = x.pcAdd(st.pc, x.c.F)
		return -1
	}
	st.pc = x.pcAdd(st.pc, x.simp(st.pc, conds[alts[0]]))
	return alts[0]
}

// nextPath advances to the next unexplored combination of decisions.
func (x *Exec) nextPath() bool {
	for n := len(x.decs); n > 0; n-- {
		d := &x.decs[n-1]
		if d.cur+1 < len(d.alts) {
			d.cur++
			x.decs = x.decs[:n]
			return true
		}
	}
	return false
}

// choose settles a condition in path mode and returns it unchanged otherwise.
func (x *Exec) choose(st *State, g *B) *B {
	g = x.simp(st.pc, g)
	if !x.paths || g == x.c.T || g == x.c.F {
		return g
	}
	switch x.decide(st, []*B{g, x.c.Not(g)}) {
	case 0:
		return x.c.T
	case 1:
		return x.c.F
	}
	return x.c.F
}

// along bounds a term by what the path condition says of its direction.
func (x *Exec) along(st *State, l *Lin) (lo, hi *big.Rat) {
	lo, hi = l.lo, l.hi
	if l.isConst() {
		return
	}
	d, lead := x.c.direction(l)
	h := x.have(st.pc, d)
	u, v := h.lo, h.hi
	if lead.Sign() < 0 {
		u, v = v, u
	}
	if u != nil {
		lo = maxOf(lo, radd(rmul(u, lead), l.k))
	}
	if v != nil {
		hi = minOf(hi, radd(rmul(v, lead), l.k))
	}
	return
}

// settleFloor is the value on this path of the floor of l, which lies between lo
// and hi.
func (x *Exec) settleFloor(st *State, lo, hi *big.Rat, l *Lin) *Lin {
	c := x.c
	var conds []*B
	var vals []*Lin
	for k := lo; k.Cmp(hi) <= 0; k = radd(k, rat(1)) {
		v := c.LConst(k)
		ge := c.Not(c.Cmp(cmpLT, c.LSub(l, v)))
		lt := c.Cmp(cmpLT, c.LSub(l, c.LConst(radd(k, rat(1)))))
		conds = append(conds, c.And(ge, lt))
		vals = append(vals, v)
	}
	k := x.decide(st, conds)
	if k < 0 {
		return vals[0]
	}
	return vals[k]
}

// settle replaces an integer-valued term over few bits by its value on this path.
func (x *Exec) settle(st *State, l *Lin) *Lin {
	c := x.c
	if !x.paths || l.isConst() || len(l.rt) != 0 || l.lo == nil || l.hi == nil {
		return l
	}
	// scale to integers
	g := linGran(l)
	if g == noGran || g < -20 {
		return l
	}
	scale := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 0))
	if g < 0 {
		scale = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(-g)))
	}
	lo, hi := new(big.Rat).Quo(l.lo, scale), new(big.Rat).Quo(l.hi, scale)
	a := new(big.Int).Div(lo.Num(), lo.Denom())
	b := new(big.Int).Div(hi.Num(), hi.Denom())
	n := new(big.Int).Sub(b, a)
	if !n.IsInt64() || n.Int64() > 130 {
		return l
	}
	var conds []*B
	var vals []*Lin
	for k := new(big.Int).Set(a); k.Cmp(b) <= 0; k = new(big.Int).Add(k, big.NewInt(1)) {
		v := c.LConst(rmul(new(big.Rat).SetInt(k), scale))
		conds = append(conds, c.Cmp(cmpEQ, c.LSub(l, v)))
		vals = append(vals, v)
	}
	k := x.decide(st, conds)
	if k < 0 {
		return vals[0]
	}
	return vals[k]
}

// ---------------------------------------------------------------- functions of one quantity

func isEps(v *RV) bool { return v.k == rVar && strings.HasPrefix(v.name, "eps") }

// uniBase finds the quantity a nonlinear term is a function of, if there is one.
func uniBase(c *Ctx, l *Lin) (base *Lin, nonlinear bool) {
	var prim func(l *Lin) *Lin
	memo := map[*Lin]*Lin{}
	prim = func(l *Lin) *Lin {
		if r, ok := memo[l]; ok {
			return r
		}
		var res *Lin
		only := len(l.bt) == 0
		var terms []*RV
		for _, t := range l.rt {
			if !isEps(t.v) {
				terms = append(terms, t.v)
			}
		}
		if only {
			var found *Lin
			good := len(terms) > 0
			for _, v := range terms {
				var subs []*Lin
				switch v.k {
				case rFn, rMul, rDiv:
					subs = append(subs, v.l1)
					if v.l2 != nil {
						subs = append(subs, v.l2)
					}
				default:
					good = false
				}
				for _, s := range subs {
					if s.isConst() {
						continue
					}
					b := prim(s)
					if b == nil || found != nil && b != found {
						good = false
						break
					}
					found = b
				}
			}
			if good && found != nil {
				nonlinear = true
				res = found
			} else if len(terms) == 1 {
				res = c.LofRV(terms[0])
			}
		}
		if res == nil {
			res = l
		}
		memo[l] = res
		return res
	}
	b := prim(l)
	if b == l {
		return nil, false
	}
	return b, nonlinear && b != nil
}

type fiv struct{ lo, hi float64 }

func up(f float64) float64   { return math.Nextafter(f, math.Inf(1)) }
func down(f float64) float64 { return math.Nextafter(f, math.Inf(-1)) }

func ivRat(r *big.Rat) fiv {
	f, exact := r.Float64()
	if exact {
		return fiv{f, f}
	}
	return fiv{down(f), up(f)}
}
func ivAdd(a, b fiv) fiv { return fiv{down(a.lo + b.lo), up(a.hi + b.hi)} }
func ivMul(a, b fiv) fiv {
	p := []float64{a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}
	lo, hi := p[0], p[0]
	for _, q := range p[1:] {
		lo, hi = math.Min(lo, q), math.Max(hi, q)
	}
	return fiv{down(lo), up(hi)}
}

// ivLin bounds a term over an interval of its base; ok is false where it is not defined.
func (c *Ctx) ivLin(l, base *Lin, in fiv) (fiv, bool) {
	if l == base {
		return in, true
	}
	r := ivRat(l.k)
	for _, t := range l.bt {
		r = ivAdd(r, ivMul(ivRat(t.c), fiv{0, 1}))
	}
	for _, t := range l.rt {
		v, ok := c.ivRV(t.v, base, in)
		if !ok {
			return v, false
		}
		r = ivAdd(r, ivMul(ivRat(t.c), v))
	}
	if math.IsNaN(r.lo) || math.IsNaN(r.hi) || math.IsInf(r.lo, 0) || math.IsInf(r.hi, 0) {
		return fiv{}, false
	}
	return r, true
}

func (c *Ctx) ivRV(v *RV, base *Lin, in fiv) (fiv, bool) {
	if len(base.rt) == 1 && len(base.bt) == 0 && base.k.Sign() == 0 && base.rt[0].v == v {
		q := ivRat(base.rt[0].c)
		if q.lo == 1 && q.hi == 1 {
			return in, true
		}
	}
	fallback := func() (fiv, bool) {
		if v.lo == nil || v.hi == nil {
			return fiv{}, false
		}
		return fiv{ivRat(v.lo).lo, ivRat(v.hi).hi}, true
	}
	switch v.k {
	case rVar:
		// a rounding error is at most half a unit in the last place
		if ro, ok := c.rounds[v]; ok && ro.size == 64 {
			a, ok := c.ivLin(ro.l, base, in)
			if !ok {
				return fallback()
			}
			m := up(math.Max(math.Abs(a.lo), math.Abs(a.hi))*0x1p-53) + 1e-300
			return fiv{-m, m}, true
		}
	case rMul:
		a, ok1 := c.ivLin(v.l1, base, in)
		if v.l1 == v.l2 {
			if !ok1 {
				return fallback()
			}
			lo, hi := a.lo*a.lo, a.hi*a.hi
			if lo > hi {
				lo, hi = hi, lo
			}
			if a.lo <= 0 && a.hi >= 0 {
				lo = 0
			}
			return fiv{math.Max(0, down(lo)), up(hi)}, true
		}
		b, ok2 := c.ivLin(v.l2, base, in)
		if !ok1 || !ok2 {
			return fallback()
		}
		return ivMul(a, b), true
	case rDiv:
		a, ok1 := c.ivLin(v.l1, base, in)
		b, ok2 := c.ivLin(v.l2, base, in)
		if !ok1 {
			return a, false
		}
		if !ok2 {
			return b, false
		}
		if b.lo <= 0 && b.hi >= 0 {
			return fiv{}, false
		}
		p := []float64{a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}
		lo, hi := p[0], p[0]
		for _, q := range p[1:] {
			lo, hi = math.Min(lo, q), math.Max(hi, q)
		}
		return fiv{down(lo), up(hi)}, true
	case rFn:
		if v.l2 != nil {
			return fallback()
		}
		a, ok := c.ivLin(v.l1, base, in)
		if !ok {
			return a, false
		}
		return ivFn(v.name, a)
	case rIte:
		a, ok1 := c.ivLin(v.l1, base, in)
		b, ok2 := c.ivLin(v.l2, base, in)
		if !ok1 || !ok2 {
			return fallback()
		}
		return fiv{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi)}, true
	}
	return fallback()
}

// Library functions are taken to be accurate to two units in the last place
// of results up to 2 (sine, cosine), twice that for the inverse functions.

// nowhere marks an argument for which the function is defined nowhere.
func nowhere(b bool) fiv {
	if b {
		return fiv{math.NaN(), math.NaN()}
	}
	return fiv{}
}

func ivFn(name string, a fiv) (fiv, bool) {
	w := func(lo, hi float64) (fiv, bool) {
		if math.IsNaN(lo) || math.IsNaN(hi) {
			return fiv{}, false
		}
		e := 5e-16
		switch name {
		case "sin", "cos":
			e = 2.5e-16
		case "sqrt", "exp":
			e = 4e-16 * math.Max(math.Abs(lo), math.Abs(hi))
		}
		return fiv{lo - e, hi + e}, true
	}
	switch name {
	case "sqrt":
		if a.lo < 0 {
			return nowhere(a.hi < 0), false
		}
		return w(math.Sqrt(a.lo), math.Sqrt(a.hi))
	case "acos":
		if a.lo < -1 || a.hi > 1 {
			return nowhere(a.hi < -1 || a.lo > 1), false
		}
		return w(math.Acos(a.hi), math.Acos(a.lo))
	case "asin":
		if a.lo < -1 || a.hi > 1 {
			return nowhere(a.hi < -1 || a.lo > 1), false
		}
		return w(math.Asin(a.lo), math.Asin(a.hi))
	case "atan":
		return w(math.Atan(a.lo), math.Atan(a.hi))
	case "exp":
		return w(math.Exp(a.lo), math.Exp(a.hi))
	case "cos", "sin":
		f, sh := math.Cos, 0.0
		if name == "sin" {
			f, sh = math.Sin, math.Pi/2
		}
		if a.hi-a.lo > 6 || math.Abs(a.lo) > 1e6 || math.Abs(a.hi) > 1e6 {
			return w(-1, 1)
		}
		lo, hi := math.Min(f(a.lo), f(a.hi)), math.Max(f(a.lo), f(a.hi))
		const guard = 1e-9
		for k := math.Ceil((a.lo-sh)/math.Pi) - 1; k*math.Pi+sh <= a.hi+guard; k++ {
			if k*math.Pi+sh >= a.lo-guard {
				if int64(k)%2 == 0 {
					hi = 1
				} else {
					lo = -1
				}
			}
		}
		r, ok := w(lo, hi)
		r.lo, r.hi = math.Max(r.lo, -1), math.Min(r.hi, 1)
		return r, ok
	}
	return fiv{}, false
}

// upiece is a part of the base's range on which an integer function of the
// base takes one value (sure), one of a few (a sliver around a step), or is
// not known.
type upiece struct {
	lo, hi float64
	a, b   int64 // possible values a..b
	undef  bool
}

// pieces divides the base's range by the value of f, evaluated over intervals.
func uniPieces(base *Lin, rlo, rhi *big.Rat, f func(fiv) (a, b int64, ok, never bool)) ([]upiece, bool) {
	if rlo == nil || rhi == nil || rlo.Cmp(rhi) > 0 {
		return nil, false
	}
	lo, hi := ratFloor64(rlo), ratCeil64(rhi)
	var out []upiece
	work := 0
	var rec func(lo, hi float64) bool
	rec = func(lo, hi float64) bool {
		if work++; work > 400000 {
			return false
		}
		a, b, ok, never := f(fiv{lo, hi})
		small := hi-lo <= 2e-13*math.Max(1, math.Max(math.Abs(lo), math.Abs(hi)))
		if !ok && hi-lo <= 1e-10 {
			small = true
		}
		if ok && a != b && b-a <= 3 && hi-lo < 1e-5 {
			// too flat to be resolved: rounding decides anywhere in here
			vague := true
			for _, m := range []float64{lo, lo + (hi-lo)/2, hi} {
				u, v, o, _ := f(fiv{m, m})
				vague = vague && o && u != v
			}
			small = small || vague
		}
		switch {
		case ok && a == b, small, never:
			p := upiece{lo: lo, hi: hi, a: a, b: b, undef: !ok || b-a > 3}
			if p.undef {
				p.a, p.b = 0, 0
			}
			if n := len(out); n > 0 {
				q := &out[n-1]
				switch {
				case q.undef && p.undef, !q.undef && !p.undef && q.a == q.b && p.a == p.b && q.a == p.a:
					q.hi = hi
					return true
				case !q.undef && !p.undef && q.a != q.b && p.a != p.b && max64(q.b, p.b)-min64(q.a, p.a) <= 3:
					q.hi, q.a, q.b = hi, min64(q.a, p.a), max64(q.b, p.b)
					return true
				}
			}
			out = append(out, p)
			return len(out) < 4000
		}
		m := lo + (hi-lo)/2
		return rec(lo, m) && rec(m, hi)
	}
	if !rec(lo, hi) {
		if os.Getenv("VSYM_PATH") != "" {
			fmt.Fprintln(os.Stderr, "pieces given up", work, len(out), out[len(out)-1])
		}
		return nil, false
	}
	return out, true
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

type ucase struct {
	v     int64
	g     *B
	undef bool
	sure  bool // some part of the range surely has this value
}

// uniCases turns pieces into exclusive guards over the base.
func (x *Exec) uniCases(key string, base *Lin, ps []upiece, actual func(e *evaluator) int64) []ucase {
	c := x.c
	if r, ok := x.ucases[key]; ok {
		return r
	}
	at := map[int64]int{}
	var out []ucase
	add := func(v int64, undef, sure bool, g *B) {
		k := v
		if undef {
			k = math.MinInt64
		}
		if i, ok := at[k]; ok {
			out[i].g = c.Or(out[i].g, g)
			out[i].sure = out[i].sure || sure
			return
		}
		at[k] = len(out)
		out = append(out, ucase{v, g, undef, sure})
	}
	for i, p := range ps {
		g := c.T
		if i > 0 {
			g = c.Cmp(cmpLE, c.LSub(c.LConst(ratF(p.lo)), base))
		}
		if i+1 < len(ps) {
			g = c.And(g, c.Cmp(cmpLT, c.LSub(base, c.LConst(ratF(p.hi)))))
		}
		if p.undef || p.a == p.b {
			add(p.a, p.undef, !p.undef, g)
			continue
		}
		rest := g
		for v := p.a; v < p.b; v++ {
			v := v
			u := c.Var(fmt.Sprintf("%s.%d.%d", key, i, v))
			if c.defs[u] == nil {
				c.defs[u] = func(e *evaluator) bool { return actual(e) <= v }
				if ls, ok := c.leaves(base); ok {
					c.steps[u] = ls
				}
			}
			add(v, false, false, c.And(rest, u))
			rest = c.And(rest, c.Not(u))
		}
		add(p.b, false, false, rest)
	}
	if x.ucases == nil {
		x.ucases = map[string][]ucase{}
	}
	x.ucases[key] = out
	return out
}

// rangeOf bounds a term; in path mode the bounds follow the path condition.
func (x *Exec) rangeOf(st *State, l *Lin) (lo, hi *big.Rat) {
	lo, hi = l.lo, l.hi
	if !x.paths {
		return
	}
	c := x.c
	never := func(b *B) bool {
		d, r, _ := c.asRange(b)
		if d != nil && x.have(st.pc, d).meet(r).empty() {
			return true
		}
		return !x.feasible(x.pcAdd(st.pc, b))
	}
	for _, k := range []int64{2, 7, 32, 128, 512} {
		v := rat(k)
		if hi != nil && hi.Cmp(v) <= 0 {
			break
		}
		if never(c.Cmp(cmpLT, c.LSub(c.LConst(v), l))) {
			hi = v
			break
		}
	}
	for _, k := range []int64{0, -2, -7, -32, -128, -512} {
		v := rat(k)
		if lo != nil && lo.Cmp(v) >= 0 {
			break
		}
		if never(c.Cmp(cmpLT, c.LSub(l, c.LConst(v)))) {
			lo = v
			break
		}
	}
	return
}

// uniFloor evaluates floor of a nonlinear function of one quantity by cases.
func (x *Exec) uniFloor(st *State, l *Lin) (*Lin, bool) {
	c := x.c
	if l.isConst() || len(l.rt) == 0 {
		return nil, false
	}
	base, nl := uniBase(c, l)
	if !nl {
		return nil, false
	}
	lo, hi := x.rangeOf(st, base)
	key := fmt.Sprintf("uni%d_%v_%v", l.id, lo, hi)
	ps, ok := x.uni[key]
	if !ok {
		var good bool
		ps, good = uniPieces(base, lo, hi, func(in fiv) (int64, int64, bool, bool) {
			r, ok := c.ivLin(l, base, in)
			if !ok || math.Abs(r.lo) > 1e9 || math.Abs(r.hi) > 1e9 {
				return 0, 0, false, math.IsNaN(r.lo)
			}
			return int64(math.Floor(r.lo)), int64(math.Floor(r.hi)), true, false
		})
		if !good {
			ps = nil
		}
		if os.Getenv("VSYM_PATH") != "" {
			fmt.Fprintln(os.Stderr, "pieces", key, len(ps), base.key)
			for _, p := range ps {
				if p.undef {
					fmt.Fprintln(os.Stderr, "  undefined", p)
				}
			}
		}
		x.uni[key] = ps
	}
	if ps == nil {
		return nil, false
	}
	cs := x.uniCases(key, base, ps, func(e *evaluator) int64 {
		q := e.Lin(l)
		return new(big.Int).Div(q.Num(), q.Denom()).Int64()
	})
	if !x.paths {
		if len(cs) > 200 {
			return nil, false
		}
		var r *Lin
		for _, k := range cs {
			if k.undef {
				return nil, false
			}
			v := c.LConst(rat(k.v))
			if r == nil {
				r = v
			} else {
				r = c.LIte(k.g, v, r)
			}
		}
		return r, true
	}
	var conds []*B
	var strict []bool
	for _, k := range cs {
		conds = append(conds, k.g)
		strict = append(strict, !k.sure)
	}
	k := x.decideStrict(st, conds, strict)
	if k < 0 {
		return c.LConst(new(big.Rat)), true
	}
	if cs[k].undef {
		// not encodable further: whatever reaches this point is tried on the real code
		x.obls = append(x.obls, Obligation{Kind: "assert", Label: "floor of a function where it is not defined or too steep", Cond: st.pc.full, Run: x.run})
		st.pc = x.pcAdd(st.pc, c.F)
		return c.LConst(new(big.Rat)), true
	}
	x.notes["steps of a function of one quantity located by interval evaluation"]++
	return c.LConst(rat(cs[k].v)), true
}

// uniCmp decides l op 0 for a nonlinear function of one quantity by cases.
func (x *Exec) uniCmp(st *State, op cmpOp, l *Lin) *B {
	c := x.c
	if l.isConst() || len(l.rt) == 0 {
		return c.Cmp(op, l)
	}
	base, nl := uniBase(c, l)
	if !nl {
		return c.Cmp(op, l)
	}
	lo, hi := x.rangeOf(st, base)
	key := fmt.Sprintf("unic%d_%d_%v_%v", op, l.id, lo, hi)
	ps, ok := x.uni[key]
	if !ok {
		var good bool
		ps, good = uniPieces(base, lo, hi, func(in fiv) (int64, int64, bool, bool) {
			r, ok := c.ivLin(l, base, in)
			switch {
			case !ok:
				return 0, 0, false, math.IsNaN(r.lo)
			case op == cmpEQ && (r.lo > 0 || r.hi < 0):
				return 0, 0, true, false
			case op == cmpLT && r.hi < 0 || op == cmpLE && r.hi <= 0:
				return 1, 1, true, false
			case op == cmpLT && r.lo >= 0 || op == cmpLE && r.lo > 0:
				return 0, 0, true, false
			}
			return 0, 1, true, false
		})
		if !good {
			ps = nil
		}
		if os.Getenv("VSYM_PATH") != "" {
			fmt.Fprintln(os.Stderr, "pieces", key, len(ps))
		}
		x.uni[key] = ps
	}
	if ps == nil || len(ps) > 200 {
		return c.Cmp(op, l)
	}
	r := c.F
	for _, k := range x.uniCases(key, base, ps, func(e *evaluator) int64 {
		s := e.Lin(l).Sign()
		if s < 0 && op != cmpEQ || s == 0 && op != cmpLT {
			return 1
		}
		return 0
	}) {
		if k.undef {
			r = c.Or(r, c.And(k.g, c.Cmp(op, l)))
		} else if k.v == 1 {
			r = c.Or(r, k.g)
		}
	}
	return r
}

// leaves returns the Boolean symbols a term is a function of; ok is false if
// it depends on a real symbol.
func (c *Ctx) leaves(l *Lin) (out []*B, ok bool) {
	seenB, seenR := map[*B]bool{}, map[*RV]bool{}
	var vb func(b *B)
	vb = func(b *B) {
		if seenB[b] {
			return
		}
		seenB[b] = true
		if b.k == kVar {
			out = append(out, b)
		}
		if b.k == kCmp {
			ok = false
		}
		for _, a := range b.a {
			vb(a)
		}
	}
	ok = true
	var vl func(l *Lin)
	vl = func(l *Lin) {
		for _, t := range l.bt {
			vb(t.b)
		}
		for _, t := range l.rt {
			if seenR[t.v] {
				continue
			}
			seenR[t.v] = true
			ro, round := c.rounds[t.v]
			switch {
			case round:
				vl(ro.l)
			case t.v.k == rVar:
				ok = false
			default:
				if t.v.l1 != nil {
					vl(t.v.l1)
				}
				if t.v.l2 != nil {
					vl(t.v.l2)
				}
				if t.v.g != nil {
					vb(t.v.g)
				}
			}
		}
	}
	vl(l)
	return out, ok
}

// ---------------------------------------------------------------- bounds along a path

// interval is a range of reals; a nil end is open to infinity, and a strict end
// does not belong to the range.
type interval struct {
	lo, hi   *big.Rat
	slo, shi bool
}

// direction splits a term into lead*d + k with the first coefficient of d one.
func (c *Ctx) direction(l *Lin) (d *Lin, lead *big.Rat) {
	if r, ok := c.dirs[l]; ok {
		return r.d, r.lead
	}
	if len(l.rt) > 0 {
		lead = l.rt[0].c
	} else {
		lead = l.bt[0].c
	}
	inv := new(big.Rat).Inv(lead)
	d = c.LScale(c.LSub(l, c.LConst(l.k)), inv)
	if c.dirs == nil {
		c.dirs = map[*Lin]dirLead{}
	}
	c.dirs[l] = dirLead{d, lead}
	return d, lead
}

type dirLead struct {
	d    *Lin
	lead *big.Rat
}

// asRange reads a comparison as a range of one quantity.
func (c *Ctx) asRange(b *B) (d *Lin, r interval, ok bool) {
	neg := b.k == kNot
	if neg {
		b = b.a[0]
	}
	if b.k != kCmp || b.lin.isConst() || neg && b.cmp == cmpEQ {
		return
	}
	d, lead := c.direction(b.lin)
	v := new(big.Rat).Quo(rneg(b.lin.k), lead)
	switch {
	case b.cmp == cmpEQ:
		return d, interval{lo: v, hi: v}, true
	case (lead.Sign() > 0) != neg:
		return d, interval{hi: v, shi: (b.cmp == cmpLT) != neg}, true
	}
	return d, interval{lo: v, slo: (b.cmp == cmpLT) != neg}, true
}

func (a interval) meet(b interval) interval {
	if b.lo != nil {
		if a.lo == nil || b.lo.Cmp(a.lo) > 0 {
			a.lo, a.slo = b.lo, b.slo
		} else if b.lo.Cmp(a.lo) == 0 {
			a.slo = a.slo || b.slo
		}
	}
	if b.hi != nil {
		if a.hi == nil || b.hi.Cmp(a.hi) < 0 {
			a.hi, a.shi = b.hi, b.shi
		} else if b.hi.Cmp(a.hi) == 0 {
			a.shi = a.shi || b.shi
		}
	}
	return a
}

func (a interval) empty() bool {
	if a.lo == nil || a.hi == nil {
		return false
	}
	s := a.lo.Cmp(a.hi)
	return s > 0 || s == 0 && (a.slo || a.shi)
}

func (a interval) within(b interval) bool {
	if b.lo != nil {
		if a.lo == nil {
			return false
		}
		if s := a.lo.Cmp(b.lo); s < 0 || s == 0 && b.slo && !a.slo {
			return false
		}
	}
	if b.hi != nil {
		if a.hi == nil {
			return false
		}
		if s := a.hi.Cmp(b.hi); s > 0 || s == 0 && b.shi && !a.shi {
			return false
		}
	}
	return true
}

// ranges gives ranges of single quantities that a condition implies.
func (c *Ctx) ranges(b *B) map[*Lin]interval {
	if m, ok := c.rngs[b]; ok {
		return m
	}
	var m map[*Lin]interval
	switch {
	case b.k == kAnd:
		m = map[*Lin]interval{}
		for _, y := range b.a {
			for d, r := range c.ranges(y) {
				m[d] = m[d].meet(r)
			}
		}
	case b.k == kNot && b.a[0].k == kAnd:
		// the hull over the alternatives
		for i, y := range b.a[0].a {
			n := c.ranges(c.Not(y))
			if i == 0 {
				m = map[*Lin]interval{}
				for d, r := range n {
					m[d] = r
				}
				continue
			}
			for d, r := range m {
				o, ok := n[d]
				if !ok {
					delete(m, d)
					continue
				}
				if m[d] = r.hull(o); m[d].lo == nil && m[d].hi == nil {
					delete(m, d)
				}
			}
		}
	default:
		if d, r, ok := c.asRange(b); ok {
			m = map[*Lin]interval{d: r}
		}
	}
	if c.rngs == nil {
		c.rngs = map[*B]map[*Lin]interval{}
	}
	c.rngs[b] = m
	return m
}

func (a interval) hull(b interval) interval {
	var r interval
	if a.lo != nil && b.lo != nil {
		r.lo, r.slo = a.lo, a.slo
		if s := b.lo.Cmp(a.lo); s < 0 || s == 0 {
			r.lo, r.slo = b.lo, b.slo && (s < 0 || a.slo)
		}
	}
	if a.hi != nil && b.hi != nil {
		r.hi, r.shi = a.hi, a.shi
		if s := b.hi.Cmp(a.hi); s >= 0 {
			r.hi, r.shi = b.hi, b.shi && (s > 0 || a.shi)
		}
	}
	return r
}

// rangesOf gives the ranges a path condition implies literal by literal.
func (x *Exec) rangesOf(p *PC) map[*Lin]interval {
	if p.bounds != nil {
		return p.bounds
	}
	m := map[*Lin]interval{}
	if p.parent != nil {
		for d, r := range x.rangesOf(p.parent) {
			m[d] = r
		}
	}
	for d, r := range x.c.ranges(p.lit) {
		old, has := m[d]
		if !has {
			old = interval{lo: d.lo, hi: d.hi}
		}
		m[d] = old.meet(r)
	}
	p.bounds = m
	return m
}

type kinPair struct{ a, b *Lin }

// kin describes d as f*o + rest, with rest between lo and hi.
type kin struct {
	f, lo, hi *big.Rat
}

// kinship relates two quantities that differ by rounding errors only.
func (c *Ctx) kinship(d, o *Lin) *kin {
	if k, ok := c.kins[kinPair{d, o}]; ok {
		return k
	}
	if c.kins == nil {
		c.kins = map[kinPair]*kin{}
	}
	var r *kin
	var f *big.Rat
	biggest := func(l *Lin) (b *B, v *RV) {
		var m *big.Rat
		for _, t := range l.bt {
			if a := rabs(t.c); m == nil || a.Cmp(m) > 0 {
				m, b = a, t.b
			}
		}
		for _, t := range l.rt {
			if a := rabs(t.c); (m == nil || a.Cmp(m) > 0) && !isEps(t.v) {
				m, b, v = a, nil, t.v
			}
		}
		return
	}
	coef := func(l *Lin, b *B, v *RV) *big.Rat {
		for _, t := range l.bt {
			if b != nil && t.b == b {
				return t.c
			}
		}
		for _, t := range l.rt {
			if v != nil && t.v == v {
				return t.c
			}
		}
		return nil
	}
	if b, v := biggest(o); b != nil || v != nil {
		if cd := coef(d, b, v); cd != nil {
			f = new(big.Rat).Quo(cd, coef(o, b, v))
		}
	}
	if f != nil {
		rest := c.LSub(d, c.LScale(o, f))
		if rest.lo != nil && rest.hi != nil && d.lo != nil && d.hi != nil {
			w, all := rsub(rest.hi, rest.lo), rsub(d.hi, d.lo)
			if w.Cmp(rmul(all, big.NewRat(1, 1<<20))) < 0 {
				r = &kin{f, rest.lo, rest.hi}
			}
		}
	}
	c.kins[kinPair{d, o}] = r
	return r
}

// have is what a path condition says of one quantity.
func (x *Exec) have(p *PC, d *Lin) interval {
	if h, ok := p.haves[d]; ok {
		return h
	}
	all := x.rangesOf(p)
	h := interval{lo: d.lo, hi: d.hi}
	for o, r := range all {
		if o == d {
			h = h.meet(r)
			continue
		}
		k := x.c.kinship(d, o)
		if k == nil {
			continue
		}
		t := interval{r.lo, r.hi, r.slo, r.shi}
		if k.f.Sign() < 0 {
			t = interval{r.hi, r.lo, r.shi, r.slo}
		}
		if t.lo != nil {
			t.lo = radd(rmul(t.lo, k.f), k.lo)
		}
		if t.hi != nil {
			t.hi = radd(rmul(t.hi, k.f), k.hi)
		}
		h = h.meet(t)
	}
	if p.haves == nil {
		p.haves = map[*Lin]interval{}
	}
	p.haves[d] = h
	return h
}

// known settles a condition by the ranges along the path; nil if they do not.
func (x *Exec) known(p *PC, b *B) *B {
	if len(x.rangesOf(p)) == 0 {
		return nil
	}
	for d, r := range x.c.ranges(b) {
		if x.have(p, d).meet(r).empty() {
			return x.c.F
		}
	}
	a := b
	if b.k == kNot {
		a = b.a[0]
	}
	if d, r, ok := x.c.asRange(a); ok && x.have(p, d).within(r) {
		return x.c.Bool(a == b)
	}
	return nil
}
