package main

// Boolean term graph: the engine represents every machine integer as a vector
// of Boolean terms (least significant bit first).  Terms are hash-consed per
// Ctx and lightly simplified; everything else is left to the SMT solver.

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type bkind uint8

const (
	kConst bkind = iota
	kVar
	kNot
	kAnd // n-ary
	kXor // n-ary, args are neither constants nor negations nor xors
	kIte
	kCmp // real atom: lin op 0
)

type cmpOp uint8

const (
	cmpLE cmpOp = iota // lin <= 0
	cmpLT              // lin < 0
	cmpEQ              // lin == 0
)

// B is a Boolean term.
type B struct {
	id   int
	k    bkind
	val  bool
	name string
	a    []*B
	cmp  cmpOp
	lin  *Lin
	not  *B // cached negation
}

// Ctx owns a term graph.
type Ctx struct {
	kins     map[kinPair]*kin
	rngs     map[*B]map[*Lin]interval
	dirs     map[*Lin]dirLead
	tab      map[string]*B
	n        int
	T, F     *B
	linTab   map[string]*Lin
	rvTab    map[string]*RV
	rvN      int
	rounds   map[*RV]rounding
	rounded  map[*Lin]int // sizes of floats that terms are known to be
	axioms   []axiom      // definitional constraints on fresh symbols
	varList  []*B
	fresh    int
	notes    map[string]int
	pathMode bool                           // roundings of unbounded values are kept, without a bound
	defs     map[*B]func(e *evaluator) bool // concrete meaning of defined symbols
	steps    map[*B][]*B                    // the bits a defined symbol is a function of
}

// axiom is a constraint that becomes part of a query when one of the symbols
// it defines occurs in it.
type axiom struct {
	b    *B   // asserted formula
	bs   []*B // triggers (bool vars)
	rvs  []*RV
	hard bool // nonlinear facts, left out of the first attempt
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*B{}, linTab: map[string]*Lin{}, rvTab: map[string]*RV{}, rounds: map[*RV]rounding{}, notes: map[string]int{}, defs: map[*B]func(e *evaluator) bool{}, steps: map[*B][]*B{}}
	c.F = &B{id: 0, k: kConst, val: false}
	c.T = &B{id: 1, k: kConst, val: true}
	c.F.not, c.T.not = c.T, c.F
	c.n = 2
	return c
}

func (c *Ctx) intern(k bkind, name string, a []*B) *B {
	var buf []byte
	buf = append(buf, byte(k))
	if name != "" {
		buf = append(buf, name...)
	}
	for _, x := range a {
		buf = binary.AppendUvarint(buf, uint64(x.id))
	}
	key := string(buf)
	if b, ok := c.tab[key]; ok {
		return b
	}
	b := &B{id: c.n, k: k, name: name, a: a}
	c.n++
	c.tab[key] = b
	if k == kVar {
		c.varList = append(c.varList, b)
	}
	return b
}

func (c *Ctx) Bool(v bool) *B {
	if v {
		return c.T
	}
	return c.F
}

func (c *Ctx) Var(name string) *B { return c.intern(kVar, name, nil) }

func (c *Ctx) Fresh(prefix string) *B {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh))
}

func (b *B) isConst() bool { return b.k == kConst }

func (c *Ctx) Not(x *B) *B {
	if x.not != nil {
		return x.not
	}
	n := c.intern(kNot, "", []*B{x})
	x.not = n
	n.not = x
	return n
}

const andLimit = 24

func (c *Ctx) And(xs ...*B) *B {
	// fast paths
	if len(xs) == 2 {
		a, b := xs[0], xs[1]
		if a == c.F || b == c.F {
			return c.F
		}
		if a == c.T {
			return b
		}
		if b == c.T || a == b {
			return a
		}
		if a.not == b {
			return c.F
		}
	}
	var args []*B
	for _, x := range xs {
		if x == c.F {
			return c.F
		}
		if x == c.T {
			continue
		}
		if x.k == kAnd && len(args)+len(x.a) <= andLimit {
			args = append(args, x.a...)
		} else {
			args = append(args, x)
		}
	}
	for round := 0; round < 3; round++ {
		sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
		out := args[:0:0]
		set := make(map[*B]bool, len(args))
		for _, x := range args {
			if set[x] {
				continue
			}
			if x.not != nil && set[x.not] {
				return c.F
			}
			set[x] = true
			out = append(out, x)
		}
		args = out
		// one-level unit resolution against disjunctions
		changed := false
		for i, x := range args {
			if x.k == kNot && x.a[0].k == kAnd {
				inner := x.a[0].a // x == OR of negated inner
				absorbed := false
				drop := 0
				for _, y := range inner {
					ny := y.not
					if ny != nil && set[ny] && ny != x { // disjunct ¬y holds already
						absorbed = true
						break
					}
					if set[y] { // disjunct ¬y is false
						drop++
					}
				}
				if absorbed {
					args[i] = c.T
					changed = true
				} else if drop > 0 {
					var rest []*B
					for _, y := range inner {
						if !set[y] {
							rest = append(rest, y)
						}
					}
					args[i] = c.Not(c.And(rest...))
					changed = true
					delete(set, x)
					set[args[i]] = true
				}
			} else if x.k == kIte {
				if set[x.a[0]] {
					args[i] = x.a[1]
					changed = true
				} else if n := x.a[0].not; n != nil && set[n] {
					args[i] = x.a[2]
					changed = true
				}
			}
		}
		if !changed {
			break
		}
		var flat []*B
		for _, x := range args {
			if x == c.F {
				return c.F
			}
			if x == c.T {
				continue
			}
			if x.k == kAnd && len(flat)+len(x.a) <= andLimit {
				flat = append(flat, x.a...)
			} else {
				flat = append(flat, x)
			}
		}
		args = flat
	}
	if len(args) == 0 {
		return c.T
	}
	if len(args) == 1 {
		return args[0]
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	out := args[:0:0]
	var last *B
	for _, x := range args {
		if x != last {
			out = append(out, x)
		}
		last = x
	}
	for _, x := range out {
		if x.not != nil && x.k == kNot {
			for _, y := range out {
				if y == x.a[0] {
					return c.F
				}
			}
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.intern(kAnd, "", out)
}

func (c *Ctx) Or(xs ...*B) *B {
	ns := make([]*B, len(xs))
	for i, x := range xs {
		ns[i] = c.Not(x)
	}
	return c.Not(c.And(ns...))
}

func (c *Ctx) Implies(a, b *B) *B { return c.Or(c.Not(a), b) }

const xorLimit = 400

func (c *Ctx) Xor(xs ...*B) *B {
	neg := false
	var args []*B
	var add func(x *B)
	add = func(x *B) {
		switch x.k {
		case kConst:
			if x.val {
				neg = !neg
			}
		case kNot:
			neg = !neg
			add(x.a[0])
		case kXor:
			if len(x.a) <= xorLimit {
				args = append(args, x.a...)
			} else {
				args = append(args, x)
			}
		default:
			args = append(args, x)
		}
	}
	for _, x := range xs {
		add(x)
	}
	if len(args) > 1 {
		sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
		out := args[:0]
		for i := 0; i < len(args); {
			j := i
			for j < len(args) && args[j] == args[i] {
				j++
			}
			if (j-i)%2 == 1 {
				out = append(out, args[i])
			}
			i = j
		}
		args = out
	}
	var r *B
	switch len(args) {
	case 0:
		r = c.F
	case 1:
		r = args[0]
	default:
		cp := make([]*B, len(args))
		copy(cp, args)
		r = c.intern(kXor, "", cp)
	}
	if neg {
		return c.Not(r)
	}
	return r
}

func (c *Ctx) Iff(a, b *B) *B { return c.Not(c.Xor(a, b)) }

func (c *Ctx) Ite(g, t, e *B) *B {
	if g == c.T || t == e {
		return t
	}
	if g == c.F {
		return e
	}
	if g.k == kNot {
		g, t, e = g.a[0], e, t
	}
	if t == g {
		t = c.T
	}
	if e == g {
		e = c.F
	}
	if g.not != nil {
		if t == g.not {
			t = c.F
		}
		if e == g.not {
			e = c.T
		}
	}
	if t == e {
		return t
	}
	if t == c.T {
		return c.Or(g, e)
	}
	if t == c.F {
		return c.And(c.Not(g), e)
	}
	if e == c.T {
		return c.Or(c.Not(g), t)
	}
	if e == c.F {
		return c.And(g, t)
	}
	if t.k == kIte && t.a[0] == g {
		return c.Ite(g, t.a[1], e)
	}
	if e.k == kIte && e.a[0] == g {
		return c.Ite(g, t, e.a[2])
	}
	if t.not == e {
		return c.Xor(g, e)
	}
	if t.k == kXor || e.k == kXor || (t.k == kNot && t.a[0].k == kXor) || (e.k == kNot && e.a[0].k == kXor) {
		d := c.Xor(t, e)
		if d.isConst() {
			return c.Xor(c.And(g, d), e)
		}
	}
	return c.intern(kIte, "", []*B{g, t, e})
}

// ---------------------------------------------------------------- bitvectors

// BV is a vector of Boolean terms, least significant first.
type BV []*B

func (c *Ctx) Const(v uint64, w int) BV {
	r := make(BV, w)
	for i := range r {
		if i < 64 && v>>uint(i)&1 == 1 {
			r[i] = c.T
		} else {
			r[i] = c.F
		}
	}
	return r
}

func (c *Ctx) ConstBig(v *big.Int, w int) BV {
	m := new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
	if v.Sign() < 0 {
		m = new(big.Int).Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	r := make(BV, w)
	for i := range r {
		r[i] = c.Bool(m.Bit(i) == 1)
	}
	return r
}

// constVal returns the unsigned value if all bits are constant.
func (v BV) constVal() (uint64, bool) {
	var r uint64
	for i, b := range v {
		if b.k != kConst {
			return 0, false
		}
		if b.val {
			r |= 1 << uint(i)
		}
	}
	return r, true
}

func (v BV) constSigned() (int64, bool) {
	u, ok := v.constVal()
	if !ok {
		return 0, false
	}
	w := len(v)
	if w < 64 && u>>(uint(w)-1)&1 == 1 {
		return int64(u) - int64(1)<<uint(w), true
	}
	return int64(u), true
}

func (c *Ctx) bvMap2(a, b BV, f func(x, y *B) *B) BV {
	r := make(BV, len(a))
	for i := range a {
		r[i] = f(a[i], b[i])
	}
	return r
}

func (c *Ctx) BVAnd(a, b BV) BV {
	return c.bvMap2(a, b, func(x, y *B) *B { return c.And(x, y) })
}
func (c *Ctx) BVOr(a, b BV) BV { return c.bvMap2(a, b, func(x, y *B) *B { return c.Or(x, y) }) }
func (c *Ctx) BVXor(a, b BV) BV {
	return c.bvMap2(a, b, func(x, y *B) *B { return c.Xor(x, y) })
}
func (c *Ctx) BVNot(a BV) BV {
	r := make(BV, len(a))
	for i := range a {
		r[i] = c.Not(a[i])
	}
	return r
}

func (c *Ctx) BVIte(g *B, t, e BV) BV {
	r := make(BV, len(t))
	for i := range t {
		r[i] = c.Ite(g, t[i], e[i])
	}
	return r
}

func (c *Ctx) maj(a, b, d *B) *B {
	if a.isConst() {
		if a.val {
			return c.Or(b, d)
		}
		return c.And(b, d)
	}
	if b.isConst() {
		return c.maj(b, a, d)
	}
	if d.isConst() {
		return c.maj(d, a, b)
	}
	return c.Or(c.And(a, b), c.And(d, c.Or(a, b)))
}

// signedWidth is the number of low bits of which the rest are sign copies.
func signedWidth(a BV) int {
	n := len(a)
	for n > 1 && a[n-2] == a[len(a)-1] {
		n--
	}
	return n
}

func (c *Ctx) addc(a, b BV, cin *B) BV {
	r := make(BV, len(a))
	// both operands are sign extensions: so is the sum, of one bit more
	lim := signedWidth(a)
	if n := signedWidth(b); n > lim {
		lim = n
	}
	lim++
	for i := range a {
		if i >= lim {
			r[i] = r[lim-1]
			continue
		}
		r[i] = c.Xor(a[i], b[i], cin)
		if i+1 < len(a) {
			cin = c.maj(a[i], b[i], cin)
		}
	}
	return r
}

func (c *Ctx) BVAdd(a, b BV) BV { return c.addc(a, b, c.F) }
func (c *Ctx) BVSub(a, b BV) BV { return c.addc(a, c.BVNot(b), c.T) }
func (c *Ctx) BVNeg(a BV) BV    { return c.BVSub(c.Const(0, len(a)), a) }

func (c *Ctx) BVMul(a, b BV) BV {
	w := len(a)
	if _, ok := a.constVal(); ok {
		a, b = b, a
	}
	// b may be constant; its sign bit has negative weight
	acc := c.Const(0, w)
	bw := signedWidth(b)
	for i := 0; i < bw; i++ {
		if b[i] == c.F {
			continue
		}
		sh := make(BV, w)
		for k := range sh {
			if k < i {
				sh[k] = c.F
			} else {
				sh[k] = c.And(a[k-i], b[i])
			}
		}
		if i == bw-1 {
			acc = c.BVSub(acc, sh)
		} else {
			acc = c.BVAdd(acc, sh)
		}
	}
	return acc
}

func (c *Ctx) ULT(a, b BV) *B {
	lt := c.F
	for i := range a {
		// lt = (¬a&b) | (¬(a^b) & lt)
		if a[i] == b[i] {
			continue
		}
		lt = c.Ite(c.Xor(a[i], b[i]), b[i], lt)
	}
	return lt
}
func (c *Ctx) ULE(a, b BV) *B { return c.Not(c.ULT(b, a)) }
func (c *Ctx) SLT(a, b BV) *B {
	n := len(a)
	x := append(BV{}, a...)
	y := append(BV{}, b...)
	x[n-1], y[n-1] = c.Not(a[n-1]), c.Not(b[n-1])
	return c.ULT(x, y)
}
func (c *Ctx) SLE(a, b BV) *B { return c.Not(c.SLT(b, a)) }

func (c *Ctx) BVEq(a, b BV) *B {
	args := make([]*B, 0, len(a))
	for i := range a {
		x := c.Iff(a[i], b[i])
		if x == c.F {
			return c.F
		}
		args = append(args, x)
	}
	return c.AndAll(args)
}

// AndAll conjoins many terms as a balanced tree when large.
func (c *Ctx) AndAll(xs []*B) *B {
	if len(xs) <= andLimit {
		return c.And(xs...)
	}
	var parts []*B
	for i := 0; i < len(xs); i += 16 {
		j := i + 16
		if j > len(xs) {
			j = len(xs)
		}
		parts = append(parts, c.And(xs[i:j]...))
	}
	return c.AndAll(parts)
}

func (c *Ctx) OrAll(xs []*B) *B {
	ns := make([]*B, len(xs))
	for i, x := range xs {
		ns[i] = c.Not(x)
	}
	return c.Not(c.AndAll(ns))
}

func (c *Ctx) Resize(a BV, w int, signed bool) BV {
	if w <= len(a) {
		return a[:w:w]
	}
	r := make(BV, w)
	copy(r, a)
	fill := c.F
	if signed {
		fill = a[len(a)-1]
	}
	for i := len(a); i < w; i++ {
		r[i] = fill
	}
	return r
}

func (c *Ctx) shlConst(a BV, n int) BV {
	r := make(BV, len(a))
	for i := range r {
		if i >= n {
			r[i] = a[i-n]
		} else {
			r[i] = c.F
		}
	}
	return r
}
func (c *Ctx) shrConst(a BV, n int, fill *B) BV {
	r := make(BV, len(a))
	for i := range r {
		if i+n < len(a) {
			r[i] = a[i+n]
		} else {
			r[i] = fill
		}
	}
	return r
}

// Shift implements Go shifts: an amount >= width gives 0 (or sign fill).
func (c *Ctx) Shift(a BV, amt BV, left, arith bool) BV {
	fill := c.F
	if arith {
		fill = a[len(a)-1]
	}
	one := func(x BV, n int) BV {
		if left {
			return c.shlConst(x, n)
		}
		return c.shrConst(x, n, fill)
	}
	if v, ok := amt.constVal(); ok {
		n := len(a)
		if v < uint64(n) {
			n = int(v)
		}
		return one(a, n)
	}
	r := a
	over := c.F
	for i := range amt {
		if i < 30 && 1<<uint(i) < len(a) {
			r = c.BVIte(amt[i], one(r, 1<<uint(i)), r)
		} else {
			over = c.Or(over, amt[i])
		}
	}
	z := make(BV, len(a))
	for i := range z {
		z[i] = fill
	}
	return c.BVIte(over, z, r)
}

// UDivRem: restoring division; the divisor is assumed non-zero.
func (c *Ctx) UDivRem(a, b BV) (BV, BV) {
	w := len(a)
	if d, ok := b.constVal(); ok && d != 0 && d&(d-1) == 0 {
		n := 0
		for d>>uint(n) != 1 {
			n++
		}
		q := c.shrConst(a, n, c.F)
		r := make(BV, w)
		for i := range r {
			if i < n {
				r[i] = a[i]
			} else {
				r[i] = c.F
			}
		}
		return q, r
	}
	q := make(BV, w)
	r := c.Const(0, w+1)
	bx := c.Resize(b, w+1, false)
	for i := w - 1; i >= 0; i-- {
		nr := make(BV, w+1)
		nr[0] = a[i]
		copy(nr[1:], r[:w])
		ge := c.Not(c.ULT(nr, bx))
		q[i] = ge
		r = c.BVIte(ge, c.BVSub(nr, bx), nr)
	}
	return q, r[:w]
}

func (c *Ctx) SDivRem(a, b BV) (BV, BV) {
	w := len(a)
	sa, sb := a[w-1], b[w-1]
	ua := c.BVIte(sa, c.BVNeg(a), a)
	ub := c.BVIte(sb, c.BVNeg(b), b)
	q, r := c.UDivRem(ua, ub)
	q = c.BVIte(c.Xor(sa, sb), c.BVNeg(q), q)
	r = c.BVIte(sa, c.BVNeg(r), r)
	return q, r
}

// Select builds elems[idx] for a symbolic index (idx < len(elems) is assumed).
func (c *Ctx) Select(elems []BV, idx BV) BV {
	w := len(elems[0])
	nb := 0
	for 1<<uint(nb) < len(elems) {
		nb++
	}
	out := make(BV, w)
	for bit := 0; bit < w; bit++ {
		col := make([]*B, 1<<uint(nb))
		allc := true
		for i := range col {
			if i < len(elems) {
				col[i] = elems[i][bit]
			} else {
				col[i] = col[i-1]
			}
			if !col[i].isConst() {
				allc = false
			}
		}
		if allc && len(elems) == 1<<uint(nb) {
			if r, ok := c.affine(col, idx[:nb]); ok {
				out[bit] = r
				continue
			}
		}
		out[bit] = c.muxTree(col, idx, nb)
	}
	return out
}

func (c *Ctx) muxTree(col []*B, idx BV, nb int) *B {
	if nb == 0 {
		return col[0]
	}
	h := len(col) / 2
	return c.Ite(idx[nb-1], c.muxTree(col[h:], idx, nb-1), c.muxTree(col[:h], idx, nb-1))
}

// affine recognises a truth table that is an affine function over GF(2).
func (c *Ctx) affine(col []*B, idx BV) (*B, bool) {
	n := len(col)
	k := len(idx)
	base := col[0].val
	coef := make([]bool, k)
	for i := 0; i < k; i++ {
		coef[i] = col[1<<uint(i)].val != base
	}
	for x := 0; x < n; x++ {
		v := base
		for i := 0; i < k; i++ {
			if x>>uint(i)&1 == 1 && coef[i] {
				v = !v
			}
		}
		if v != col[x].val {
			return nil, false
		}
	}
	args := []*B{c.Bool(base)}
	for i := 0; i < k; i++ {
		if coef[i] {
			args = append(args, idx[i])
		}
	}
	return c.Xor(args...), true
}

// ---------------------------------------------------------------- evaluation

type Assign struct {
	b map[string]bool
	r map[string]*big.Rat
}

type evaluator struct {
	as   *Assign
	memo map[*B]bool
	rm   map[*RV]*big.Rat
	c    *Ctx
}

func newEval(c *Ctx, as *Assign) *evaluator {
	return &evaluator{c: c, as: as, memo: map[*B]bool{}, rm: map[*RV]*big.Rat{}}
}

func (e *evaluator) B(x *B) bool {
	if x.k == kConst {
		return x.val
	}
	if v, ok := e.memo[x]; ok {
		return v
	}
	var r bool
	switch x.k {
	case kVar:
		if d := e.c.defs[x]; d != nil {
			r = d(e)
		} else {
			r = e.as.b[x.name]
		}
	case kNot:
		r = !e.B(x.a[0])
	case kAnd:
		r = true
		for _, y := range x.a {
			if !e.B(y) {
				r = false
				break
			}
		}
	case kXor:
		for _, y := range x.a {
			if e.B(y) {
				r = !r
			}
		}
	case kIte:
		if e.B(x.a[0]) {
			r = e.B(x.a[1])
		} else {
			r = e.B(x.a[2])
		}
	case kCmp:
		s := e.Lin(x.lin).Sign()
		switch x.cmp {
		case cmpLE:
			r = s <= 0
		case cmpLT:
			r = s < 0
		case cmpEQ:
			r = s == 0
		}
	}
	e.memo[x] = r
	return r
}

func (e *evaluator) BV(v BV) uint64 {
	var r uint64
	for i, b := range v {
		if e.B(b) {
			r |= 1 << uint(i)
		}
	}
	return r
}

func (b *B) String() string { return b.str(4) }
func (b *B) str(d int) string {
	if d == 0 {
		return fmt.Sprintf("#%d", b.id)
	}
	switch b.k {
	case kConst:
		return fmt.Sprint(b.val)
	case kVar:
		return b.name
	case kNot:
		return "!" + b.a[0].str(d)
	case kCmp:
		return fmt.Sprintf("(%s %s 0)", b.lin.String(), []string{"<=", "<", "=="}[b.cmp])
	}
	var s []string
	for _, x := range b.a {
		s = append(s, x.str(d-1))
	}
	return "(" + map[bkind]string{kAnd: "&", kXor: "^", kIte: "ite"}[b.k] + " " + strings.Join(s, " ") + ")"
}
