package main

// Linear real terms over Boolean atoms (0/1) and real symbols.  Floating
// point values are represented by exact real terms plus, for every operation
// whose result is not provably representable, a bounded rounding-error symbol.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

type rkind uint8

const (
	rVar   rkind = iota // free or error symbol with optional bounds
	rMul                // l1*l2
	rDiv                // l1/l2
	rFloor              // floor(l1)
	rIte                // b ? l1 : l2
	rFn                 // named function symbol, constrained by axioms
)

// RV is a non-Boolean real atom.
type RV struct {
	id     int
	k      rkind
	name   string
	l1, l2 *Lin
	g      *B
	lo, hi *big.Rat // nil = unbounded
	isInt  bool
}

type ltermB struct {
	b *B
	c *big.Rat
}
type ltermR struct {
	v *RV
	c *big.Rat
}

// Lin is k + sum c_i*b_i + sum d_j*v_j, canonical (sorted, no zero coefs).
type Lin struct {
	id  int
	k   *big.Rat
	bt  []ltermB
	rt  []ltermR
	lo  *big.Rat
	hi  *big.Rat
	key string

	unit     *big.Rat // linUnit, once computed
	unitDone bool
	runs     []bitRun // relaxBits, once computed
	loose    []ltermB
	runsDone bool
}

// bitRun is a run of consecutive bits of one number with doubling weights.
type bitRun struct {
	key    string
	n      int
	signed bool
	weight string
}

func rat(n int64) *big.Rat        { return big.NewRat(n, 1) }
func ratF(f float64) *big.Rat     { r := new(big.Rat); r.SetFloat64(f); return r }
func rsub(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
func radd(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
func rmul(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func rneg(a *big.Rat) *big.Rat    { return new(big.Rat).Neg(a) }
func rabs(a *big.Rat) *big.Rat    { return new(big.Rat).Abs(a) }

func (c *Ctx) mkLin(k *big.Rat, bt []ltermB, rt []ltermR) *Lin {
	sort.Slice(bt, func(i, j int) bool { return bt[i].b.id < bt[j].b.id })
	sort.Slice(rt, func(i, j int) bool { return rt[i].v.id < rt[j].v.id })
	kk := new(big.Rat).Set(k)
	var nb []ltermB
	for i := 0; i < len(bt); {
		s := new(big.Rat)
		j := i
		for j < len(bt) && bt[j].b == bt[i].b {
			s.Add(s, bt[j].c)
			j++
		}
		if s.Sign() != 0 {
			nb = append(nb, ltermB{bt[i].b, s})
		}
		i = j
	}
	var nr []ltermR
	for i := 0; i < len(rt); {
		s := new(big.Rat)
		j := i
		for j < len(rt) && rt[j].v == rt[i].v {
			s.Add(s, rt[j].c)
			j++
		}
		if s.Sign() != 0 {
			nr = append(nr, ltermR{rt[i].v, s})
		}
		i = j
	}
	var sb strings.Builder
	sb.WriteString(kk.RatString())
	for _, t := range nb {
		fmt.Fprintf(&sb, "|%d:%s", t.b.id, t.c.RatString())
	}
	for _, t := range nr {
		fmt.Fprintf(&sb, "/%d:%s", t.v.id, t.c.RatString())
	}
	key := sb.String()
	if l, ok := c.linTab[key]; ok {
		return l
	}
	l := &Lin{id: len(c.linTab), k: kk, bt: nb, rt: nr, key: key}
	lo, hi := new(big.Rat).Set(kk), new(big.Rat).Set(kk)
	for _, t := range nb {
		if t.c.Sign() > 0 {
			hi.Add(hi, t.c)
		} else {
			lo.Add(lo, t.c)
		}
	}
	for _, t := range nr {
		a, b := t.v.lo, t.v.hi
		if t.c.Sign() < 0 {
			a, b = b, a
		}
		if lo != nil {
			if a == nil {
				lo = nil
			} else {
				lo = radd(lo, rmul(t.c, a))
			}
		}
		if hi != nil {
			if b == nil {
				hi = nil
			} else {
				hi = radd(hi, rmul(t.c, b))
			}
		}
	}
	l.lo, l.hi = lo, hi
	c.linTab[key] = l
	return l
}

func (c *Ctx) LConst(r *big.Rat) *Lin { return c.mkLin(r, nil, nil) }

func (l *Lin) isConst() bool { return len(l.bt) == 0 && len(l.rt) == 0 }

// LBool adds coef*[b].
func (c *Ctx) litTerm(b *B, coef *big.Rat, k *big.Rat, bt []ltermB) []ltermB {
	if b.isConst() {
		if b.val {
			k.Add(k, coef)
		}
		return bt
	}
	if b.k == kNot {
		k.Add(k, coef)
		return append(bt, ltermB{b.a[0], rneg(coef)})
	}
	return append(bt, ltermB{b, coef})
}

func (c *Ctx) LFromBV(v BV, signed bool) *Lin {
	k := new(big.Rat)
	var bt []ltermB
	for i, b := range v {
		w := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(i)))
		if signed && i == len(v)-1 {
			w.Neg(w)
		}
		bt = c.litTerm(b, w, k, bt)
	}
	// collapse a sign-extended prefix: handled by summation of equal atoms
	return c.mkLin(k, bt, nil)
}

func (c *Ctx) LAdd(a, b *Lin) *Lin {
	bt := append(append([]ltermB{}, a.bt...), b.bt...)
	rt := append(append([]ltermR{}, a.rt...), b.rt...)
	r := c.mkLin(radd(a.k, b.k), bt, rt)
	if c.pathMode && a.lo != nil && b.lo != nil && a.hi != nil && b.hi != nil {
		r.tighten(radd(a.lo, b.lo), radd(a.hi, b.hi))
	}
	return r
}

// tighten records bounds known of a term otherwise than from its symbols.
func (l *Lin) tighten(lo, hi *big.Rat) {
	if l.lo == nil || lo.Cmp(l.lo) > 0 {
		l.lo = lo
	}
	if l.hi == nil || hi.Cmp(l.hi) < 0 {
		l.hi = hi
	}
}

func (c *Ctx) LScale(a *Lin, s *big.Rat) *Lin {
	if s.Sign() == 0 {
		return c.LConst(new(big.Rat))
	}
	bt := make([]ltermB, len(a.bt))
	for i, t := range a.bt {
		bt[i] = ltermB{t.b, rmul(t.c, s)}
	}
	rt := make([]ltermR, len(a.rt))
	for i, t := range a.rt {
		rt[i] = ltermR{t.v, rmul(t.c, s)}
	}
	r := c.mkLin(rmul(a.k, s), bt, rt)
	if (c.pathMode || len(a.rt) > 0) && a.lo != nil && a.hi != nil {
		lo, hi := rmul(a.lo, s), rmul(a.hi, s)
		if s.Sign() < 0 {
			lo, hi = hi, lo
		}
		r.tighten(lo, hi)
	}
	return r
}

func (c *Ctx) LNeg(a *Lin) *Lin    { return c.LScale(a, rat(-1)) }
func (c *Ctx) LSub(a, b *Lin) *Lin { return c.LAdd(a, c.LNeg(b)) }

func (c *Ctx) LofRV(v *RV) *Lin { return c.mkLin(new(big.Rat), nil, []ltermR{{v, rat(1)}}) }

func (c *Ctx) rv(k rkind, name string, l1, l2 *Lin, g *B, lo, hi *big.Rat) *RV {
	key := fmt.Sprintf("%d|%s", k, name)
	if l1 != nil {
		key += fmt.Sprintf("|a%d", l1.id)
	}
	if l2 != nil {
		key += fmt.Sprintf("|b%d", l2.id)
	}
	if g != nil {
		key += fmt.Sprintf("|g%d", g.id)
	}
	if v, ok := c.rvTab[key]; ok {
		return v
	}
	v := &RV{id: c.rvN, k: k, name: name, l1: l1, l2: l2, g: g, lo: lo, hi: hi}
	c.rvN++
	c.rvTab[key] = v
	return v
}

func (c *Ctx) RVar(name string, lo, hi *big.Rat) *Lin {
	return c.LofRV(c.rv(rVar, name, nil, nil, nil, lo, hi))
}

func (c *Ctx) FreshR(prefix string, lo, hi *big.Rat) *RV {
	c.fresh++
	return c.rv(rVar, fmt.Sprintf("%s!%d", prefix, c.fresh), nil, nil, nil, lo, hi)
}

// LIte merges two linear terms under a condition.
func (c *Ctx) LIte(g *B, t, e *Lin) *Lin {
	if g == c.T || t == e {
		return t
	}
	if g == c.F {
		return e
	}
	d := c.LSub(t, e)
	if d.isConst() {
		k := new(big.Rat).Set(e.k)
		bt := append([]ltermB{}, e.bt...)
		bt = c.litTerm(g, d.k, k, bt)
		return c.mkLin(k, bt, e.rt)
	}
	if len(d.rt) == 0 && len(t.bt)+len(e.bt) <= 160 {
		// e + [g]*(t-e), distributing over 0/1 atoms keeps the term linear
		k := new(big.Rat).Set(e.k)
		bt := append([]ltermB{}, e.bt...)
		bt = c.litTerm(g, d.k, k, bt)
		for _, x := range d.bt {
			bt = c.litTerm(c.And(g, x.b), x.c, k, bt)
		}
		return c.mkLin(k, bt, e.rt)
	}
	lo, hi := minR(t.lo, e.lo), maxR(t.hi, e.hi)
	return c.LofRV(c.rv(rIte, "", t, e, g, lo, hi))
}

func minR(a, b *big.Rat) *big.Rat {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxR(a, b *big.Rat) *big.Rat {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// LMul multiplies; non-constant products become atoms.
func (c *Ctx) LMul(a, b *Lin) *Lin {
	if a.isConst() {
		return c.LScale(b, a.k)
	}
	if b.isConst() {
		return c.LScale(a, b.k)
	}
	if !c.pathMode {
		if a.negLead() {
			return c.LNeg(c.LMul(c.LNeg(a), b))
		}
		if b.negLead() {
			return c.LNeg(c.LMul(a, c.LNeg(b)))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	// products over 0/1 atoms stay linear when small
	if len(a.rt) == 0 && len(b.rt) == 0 && (len(a.bt)+1)*(len(b.bt)+1) <= 400 {
		k := rmul(a.k, b.k)
		var bt []ltermB
		for _, x := range a.bt {
			bt = c.litTerm(x.b, rmul(x.c, b.k), k, bt)
			for _, y := range b.bt {
				bt = c.litTerm(c.And(x.b, y.b), rmul(x.c, y.c), k, bt)
			}
		}
		for _, y := range b.bt {
			bt = c.litTerm(y.b, rmul(y.c, a.k), k, bt)
		}
		return c.mkLin(k, bt, nil)
	}
	var lo, hi *big.Rat
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		ps := []*big.Rat{rmul(a.lo, b.lo), rmul(a.lo, b.hi), rmul(a.hi, b.lo), rmul(a.hi, b.hi)}
		lo, hi = ps[0], ps[0]
		for _, p := range ps[1:] {
			lo, hi = minR(lo, p), maxR(hi, p)
		}
		if a == b && lo.Sign() < 0 {
			lo = new(big.Rat)
		}
	}
	return c.LofRV(c.rv(rMul, "", a, b, nil, lo, hi))
}

// Cmp builds lin op 0 with interval simplification.
func (c *Ctx) Cmp(op cmpOp, l *Lin) *B {
	switch op {
	case cmpLE:
		if l.hi != nil && l.hi.Sign() <= 0 {
			return c.T
		}
		if l.lo != nil && l.lo.Sign() > 0 {
			return c.F
		}
	case cmpLT:
		if l.hi != nil && l.hi.Sign() < 0 {
			return c.T
		}
		if l.lo != nil && l.lo.Sign() >= 0 {
			return c.F
		}
	case cmpEQ:
		if l.isConst() {
			return c.Bool(l.k.Sign() == 0)
		}
		if l.lo != nil && l.lo.Sign() > 0 || l.hi != nil && l.hi.Sign() < 0 {
			return c.F
		}
	}
	// a purely 0/1-linear comparison is decided with bit arithmetic
	if len(l.rt) == 0 {
		if !c.pathMode || len(l.bt) < 3 {
			if b, ok := c.pbCmp(op, l); ok {
				return b
			}
		}
	}
	key := fmt.Sprintf("C%d|%d", op, l.id)
	if b, ok := c.tab[key]; ok {
		return b
	}
	b := &B{id: c.n, k: kCmp, cmp: op, lin: l}
	c.n++
	c.tab[key] = b
	return b
}

// pbCmp turns a pseudo-Boolean comparison with rational coefficients into
// bit-vector arithmetic when the scaled coefficients fit in 62 bits.
func (c *Ctx) pbCmp(op cmpOp, l *Lin) (*B, bool) {
	den := big.NewInt(1)
	for _, t := range l.bt {
		g := new(big.Int).GCD(nil, nil, den, t.c.Denom())
		den = new(big.Int).Mul(den, new(big.Int).Quo(t.c.Denom(), g))
	}
	toI := func(r *big.Rat) *big.Int {
		x := new(big.Int).Mul(r.Num(), den)
		return x.Quo(x, r.Denom())
	}
	// the sum of the atoms is a multiple of unit, so the constant can be
	// rounded up to the next multiple
	unit := new(big.Int)
	for _, t := range l.bt {
		unit.GCD(nil, nil, unit, new(big.Int).Abs(toI(t.c)))
	}
	coef := func(r *big.Rat) *big.Int { return new(big.Int).Quo(toI(r), unit) }
	kq := new(big.Rat).Mul(l.k, new(big.Rat).SetFrac(den, unit))
	kc := new(big.Int)
	if kq.IsInt() {
		kc.Set(kq.Num())
		if op == cmpLT {
			kc.Add(kc, big.NewInt(1))
		}
	} else {
		if op == cmpEQ {
			return c.F, true
		}
		kc.Div(kq.Num(), kq.Denom()) // Euclidean: floor for a positive divisor
		kc.Add(kc, big.NewInt(1))
	}
	if op == cmpLT {
		op = cmpLE
	}
	pos, neg := new(big.Int), new(big.Int)
	addTo := func(x *big.Int) {
		if x.Sign() > 0 {
			pos.Add(pos, x)
		} else {
			neg.Sub(neg, x)
		}
	}
	addTo(kc)
	for _, t := range l.bt {
		addTo(coef(t.c))
	}
	w := pos.BitLen()
	if neg.BitLen() > w {
		w = neg.BitLen()
	}
	w++
	if w > 80 || len(l.bt) > 400 {
		return nil, false
	}
	mk := func(sign int) BV {
		acc := c.Const(0, w)
		one := func(x *big.Int, b *B) {
			if x.Sign()*sign <= 0 {
				return
			}
			y := new(big.Int).Abs(x)
			v := make(BV, w)
			for i := range v {
				if y.Bit(i) == 1 {
					v[i] = b
				} else {
					v[i] = c.F
				}
			}
			acc = c.BVAdd(acc, v)
		}
		for _, t := range l.bt {
			one(coef(t.c), t.b)
		}
		one(kc, c.T)
		return acc
	}
	p, n := mk(1), mk(-1)
	switch op {
	case cmpLE:
		return c.ULE(p, n), true
	}
	return c.BVEq(p, n), true
}

// ---------------------------------------------------------------- floats

// grid: value is an integer multiple of 2^gran.
const noGran = math.MinInt32

func ratGran(r *big.Rat) int {
	if r.Sign() == 0 {
		return 1000
	}
	d := r.Denom()
	tz := int(d.TrailingZeroBits())
	if d.BitLen()-1 != tz { // not a power of two
		return noGran
	}
	return int(r.Num().TrailingZeroBits()) - tz
}

func linGran(l *Lin) int {
	g := ratGran(l.k)
	if g == noGran {
		return noGran
	}
	for _, t := range l.bt {
		x := ratGran(t.c)
		if x == noGran {
			return noGran
		}
		if x < g {
			g = x
		}
	}
	for _, t := range l.rt {
		if !t.v.isInt {
			return noGran
		}
		x := ratGran(t.c)
		if x == noGran {
			return noGran
		}
		if x < g {
			g = x
		}
	}
	return g
}

func mant(size int) int {
	if size == 32 {
		return 24
	}
	return 53
}

// rounding is the operation a rounding-error symbol stands for.
type rounding struct {
	l    *Lin
	size int
}

// roundRat is the nearest float of the given size.
func roundRat(x *big.Rat, size int) *big.Rat {
	if size == 32 {
		f, _ := x.Float32()
		return ratF(float64(f))
	}
	f, _ := x.Float64()
	return ratF(f)
}

// Round applies the rounding of a float of the given size to an exact term.
// negLead reports whether the first unknown of l has a negative coefficient.
func (l *Lin) negLead() bool {
	return len(l.rt) > 0 && l.rt[0].c.Sign() < 0
}

// isFloat reports whether l is known to be a float of the given size.
func (c *Ctx) isFloat(l *Lin, size int) bool {
	if s, ok := c.rounded[l]; ok && s <= size {
		return true
	}
	return c.Round(l, size) == l
}

func (c *Ctx) Round(l *Lin, size int) *Lin {
	if l.isConst() {
		return c.LConst(roundRat(l.k, size))
	}
	if !c.pathMode && l.negLead() { // so that x and -x are rounded by one error term
		return c.LNeg(c.Round(c.LNeg(l), size))
	}
	m := mant(size)
	if l.lo != nil && l.hi != nil {
		mx := maxR(rabs(l.lo), rabs(l.hi))
		if g := linGran(l); g != noGran {
			lim := new(big.Rat)
			if g+m >= 0 {
				lim.SetInt(new(big.Int).Lsh(big.NewInt(1), uint(g+m)))
			} else {
				lim.SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(-(g+m))))
			}
			if mx.Cmp(lim) <= 0 {
				return l
			}
		}
		e := rmul(mx, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(m))))
		e = radd(e, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 140)))
		// coarsen the bound to a short rational
		f, _ := e.Float64()
		e = ratF(math.Nextafter(f, math.Inf(1)))
		v := c.rv(rVar, fmt.Sprintf("eps%d_%d", size, l.id), nil, nil, nil, rneg(e), e)
		if _, ok := c.rounds[v]; !ok {
			c.rounds[v] = rounding{l: l, size: size}
			zero := c.Or(c.Not(c.Cmp(cmpEQ, l)), c.Cmp(cmpEQ, c.LofRV(v)))
			if zero != c.T {
				c.axioms = append(c.axioms, axiom{b: zero, rvs: []*RV{v}, hard: true})
			}
		}
		r := c.LAdd(l, c.LofRV(v))
		if !c.pathMode && !r.isConst() { // rounding is monotone
			r.tighten(roundRat(l.lo, size), roundRat(l.hi, size))
		}
		if c.rounded == nil {
			c.rounded = map[*Lin]int{}
		}
		if o, ok := c.rounded[r]; !ok || size < o {
			c.rounded[r] = size
		}
		return r
	}
	if c.pathMode {
		v := c.rv(rVar, fmt.Sprintf("eps%d_%d", size, l.id), nil, nil, nil, nil, nil)
		c.rounds[v] = rounding{l: l, size: size}
		return c.LAdd(l, c.LofRV(v))
	}
	c.notes["float rounding of unbounded value ignored"]++
	return l
}

func (e *evaluator) Lin(l *Lin) *big.Rat {
	s := new(big.Rat).Set(l.k)
	for _, t := range l.bt {
		if e.B(t.b) {
			s.Add(s, t.c)
		}
	}
	for _, t := range l.rt {
		s.Add(s, rmul(t.c, e.RV(t.v)))
	}
	return s
}

func (e *evaluator) RV(v *RV) *big.Rat {
	if r, ok := e.rm[v]; ok {
		return r
	}
	var r *big.Rat
	switch v.k {
	case rVar:
		if ro, ok := e.c.rounds[v]; ok {
			x := e.Lin(ro.l)
			r = new(big.Rat).Sub(roundRat(x, ro.size), x)
			break
		}
		r = e.as.r[v.name]
		if r == nil {
			r = new(big.Rat)
		}
	case rMul:
		r = rmul(e.Lin(v.l1), e.Lin(v.l2))
	case rDiv:
		d := e.Lin(v.l2)
		if d.Sign() == 0 {
			r = new(big.Rat)
		} else {
			r = new(big.Rat).Quo(e.Lin(v.l1), d)
		}
	case rFloor:
		x := e.Lin(v.l1)
		q := new(big.Int).Div(x.Num(), x.Denom())
		r = new(big.Rat).SetInt(q)
	case rIte:
		if e.B(v.g) {
			r = e.Lin(v.l1)
		} else {
			r = e.Lin(v.l2)
		}
	case rFn:
		r = e.fn(v)
	}
	e.rm[v] = r
	return r
}

func (e *evaluator) fn(v *RV) *big.Rat {
	x, _ := e.Lin(v.l1).Float64()
	y := 0.0
	if v.l2 != nil {
		y, _ = e.Lin(v.l2).Float64()
	}
	var f float64
	switch v.name {
	case "sqrt":
		f = math.Sqrt(x)
	case "sin":
		f = math.Sin(x)
	case "cos":
		f = math.Cos(x)
	case "acos":
		f = math.Acos(x)
	case "asin":
		f = math.Asin(x)
	case "atan":
		f = math.Atan(x)
	case "atan2":
		f = math.Atan2(x, y)
	case "tan":
		f = math.Tan(x)
	case "exp":
		f = math.Exp(x)
	case "log":
		f = math.Log(x)
	case "pow":
		f = math.Pow(x, y)
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return new(big.Rat)
	}
	return ratF(f)
}

func (l *Lin) String() string {
	var s []string
	if l.k.Sign() != 0 || l.isConst() {
		f, _ := l.k.Float64()
		s = append(s, fmt.Sprint(f))
	}
	for _, t := range l.bt {
		f, _ := t.c.Float64()
		s = append(s, fmt.Sprintf("%g*#%d", f, t.b.id))
	}
	for _, t := range l.rt {
		f, _ := t.c.Float64()
		s = append(s, fmt.Sprintf("%g*r%d(%s)", f, t.v.id, t.v.name))
	}
	return strings.Join(s, "+")
}

// linUnit returns the greatest u such that the non-constant part of a term
// over bits and integers is always a multiple of u; nil if there is none.
func linUnit(l *Lin) *big.Rat {
	if !l.unitDone {
		l.unit, l.unitDone = linUnit1(l), true
	}
	return l.unit
}

func linUnit1(l *Lin) *big.Rat {
	var u *big.Rat
	add := func(q *big.Rat) {
		if u == nil {
			u = rabs(q)
			return
		}
		// gcd(a/b, c/d) = gcd(a*d, c*b)/(b*d)
		x := new(big.Int).Mul(u.Num(), q.Denom())
		y := new(big.Int).Mul(new(big.Int).Abs(q.Num()), u.Denom())
		g := new(big.Int).GCD(nil, nil, x, y)
		u = new(big.Rat).SetFrac(g, new(big.Int).Mul(u.Denom(), q.Denom()))
	}
	for _, t := range l.bt {
		add(t.c)
	}
	for _, t := range l.rt {
		if !t.v.isInt {
			return nil
		}
		add(t.c)
	}
	return u
}

// unitOfOne is linUnit for terms whose value and 1 are both multiples of it.
func unitOfOne(l *Lin) *big.Rat {
	u := linUnit(l)
	if u == nil || u.Num().Cmp(big.NewInt(1)) != 0 {
		return nil
	}
	if !new(big.Rat).Quo(l.k, u).IsInt() {
		return nil
	}
	return u
}
