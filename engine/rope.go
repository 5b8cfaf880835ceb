package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// Rope is a symbolic string: a sequence of segments.
type Rope struct {
	segs []Seg
	k    string
}

// Seg is a literal, a symbolic byte, a guarded choice, or a formatted value.
type Seg struct {
	lit  string
	ch   BV // symbolic byte
	alts []RopeAlt
	fm   *FmtSeg
}

type RopeAlt struct {
	g *B
	r *Rope
}

// FmtSeg is the opaque text of a formatted symbolic value.
type FmtSeg struct {
	spec string
	v    Value
	t    types.Type
}

func litStr(s string) *Rope {
	if s == "" {
		return &Rope{}
	}
	return &Rope{segs: []Seg{{lit: s}}}
}

func (r *Rope) konst() (string, bool) {
	switch len(r.segs) {
	case 0:
		return "", true
	case 1:
		s := r.segs[0]
		if s.ch == nil && s.alts == nil && s.fm == nil {
			return s.lit, true
		}
	}
	return "", false
}

func (s Seg) isLit() bool { return s.ch == nil && s.alts == nil && s.fm == nil }

func valueKey(v Value) string {
	switch p := v.(type) {
	case IntV:
		var sb strings.Builder
		for _, b := range p.b {
			fmt.Fprintf(&sb, "%d,", b.id)
		}
		return sb.String()
	case FloatV:
		return fmt.Sprintf("f%d/%d/%d", p.l.id, p.spec.id, p.size)
	case *Rope:
		return p.key()
	case ArrayV:
		s := "["
		for _, e := range p.e {
			s += valueKey(e) + ";"
		}
		return s + "]"
	case StructV:
		s := "{"
		for _, e := range p.f {
			s += valueKey(e) + ";"
		}
		return s + "}"
	}
	return fmt.Sprintf("%T%p", v, v)
}

func (r *Rope) key() string {
	if r.k != "" || len(r.segs) == 0 {
		return r.k
	}
	var sb strings.Builder
	for _, s := range r.segs {
		switch {
		case s.ch != nil:
			sb.WriteString("C" + valueKey(IntV{s.ch}))
		case s.alts != nil:
			sb.WriteString("A(")
			for _, a := range s.alts {
				fmt.Fprintf(&sb, "%d?%s|", a.g.id, a.r.key())
			}
			sb.WriteString(")")
		case s.fm != nil:
			sb.WriteString("F" + s.fm.spec + ":" + valueKey(s.fm.v) + ";")
		default:
			fmt.Fprintf(&sb, "L%d:%s", len(s.lit), s.lit)
		}
	}
	r.k = sb.String()
	return r.k
}

func concatRope(rs ...*Rope) *Rope {
	var out []Seg
	for _, r := range rs {
		for _, s := range r.segs {
			if s.isLit() {
				if s.lit == "" {
					continue
				}
				if n := len(out); n > 0 && out[n-1].isLit() {
					out[n-1] = Seg{lit: out[n-1].lit + s.lit}
					continue
				}
			}
			out = append(out, s)
		}
	}
	return &Rope{segs: out}
}

func (x *Exec) mergeRope(g *B, a, b *Rope) *Rope {
	c := x.c
	if a.key() == b.key() {
		return a
	}
	// same-shape ropes made of bytes merge bytewise
	if p, ok := a.bytes(c); ok {
		if q, ok := b.bytes(c); ok && len(p) == len(q) && (hasSym(a) || hasSym(b)) {
			var out []*Rope
			for i := range p {
				out = append(out, byteRope(c.BVIte(g, p[i], q[i])))
			}
			return concatRope(out...)
		}
	}
	// strip the common prefix of segments
	n := 0
	for n < len(a.segs) && n < len(b.segs) && segKey(a.segs[n]) == segKey(b.segs[n]) {
		n++
	}
	i, j := len(a.segs), len(b.segs)
	for i > n && j > n && segKey(a.segs[i-1]) == segKey(b.segs[j-1]) {
		i--
		j--
	}
	ma, mb := &Rope{segs: a.segs[n:i]}, &Rope{segs: b.segs[n:j]}
	alts := []RopeAlt{}
	ng := c.Not(g)
	add := func(gg *B, r *Rope) {
		if gg == c.F {
			return
		}
		for k := range alts {
			if alts[k].r.key() == r.key() {
				alts[k].g = c.Or(alts[k].g, gg)
				return
			}
		}
		alts = append(alts, RopeAlt{gg, r})
	}
	flat := func(gg *B, r *Rope) {
		if len(r.segs) == 1 && r.segs[0].alts != nil {
			for _, t := range r.segs[0].alts {
				add(c.And(gg, t.g), t.r)
			}
			return
		}
		add(gg, r)
	}
	flat(g, ma)
	flat(ng, mb)
	var mid Seg
	if len(alts) == 1 {
		return concatRope(&Rope{segs: a.segs[:n]}, alts[0].r, &Rope{segs: a.segs[i:]})
	}
	mid = Seg{alts: alts}
	return concatRope(&Rope{segs: a.segs[:n]}, &Rope{segs: []Seg{mid}}, &Rope{segs: a.segs[i:]})
}

func hasSym(r *Rope) bool { _, ok := r.konst(); return !ok }

func segKey(s Seg) string { return (&Rope{segs: []Seg{s}}).key() }

func byteRope(b BV) *Rope {
	if v, ok := b.constVal(); ok {
		return litStr(string([]byte{byte(v)}))
	}
	return &Rope{segs: []Seg{{ch: b}}}
}

// bytes returns the byte terms of a rope without alternatives of unequal length or formatted values.
func (r *Rope) bytes(c *Ctx) ([]BV, bool) {
	var out []BV
	for _, s := range r.segs {
		switch {
		case s.ch != nil:
			out = append(out, s.ch)
		case s.fm != nil:
			return nil, false
		case s.alts != nil:
			var acc []BV
			for i, a := range s.alts {
				bs, ok := a.r.bytes(c)
				if !ok {
					return nil, false
				}
				if i == 0 {
					acc = bs
					continue
				}
				if len(bs) != len(acc) {
					return nil, false
				}
				m := make([]BV, len(bs))
				for k := range bs {
					m[k] = c.BVIte(a.g, bs[k], acc[k])
				}
				acc = m
			}
			out = append(out, acc...)
		default:
			for i := 0; i < len(s.lit); i++ {
				out = append(out, c.Const(uint64(s.lit[i]), 8))
			}
		}
	}
	return out, true
}

// expand lists the guarded alternatives of a rope with all choices multiplied
// out (bounded); every result is free of alts.
func (r *Rope) expand(c *Ctx, limit int) ([]RopeAlt, bool) {
	acc := []RopeAlt{{c.T, &Rope{}}}
	for _, s := range r.segs {
		if s.alts == nil {
			for i := range acc {
				acc[i].r = concatRope(acc[i].r, &Rope{segs: []Seg{s}})
			}
			continue
		}
		var next []RopeAlt
		for _, a := range s.alts {
			sub, ok := a.r.expand(c, limit)
			if !ok {
				return nil, false
			}
			for _, t := range sub {
				for _, p := range acc {
					g := c.And(p.g, a.g, t.g)
					if g == c.F {
						continue
					}
					next = append(next, RopeAlt{g, concatRope(p.r, t.r)})
					if len(next) > limit {
						return nil, false
					}
				}
			}
		}
		acc = next
	}
	return acc, true
}

// mapRope applies a native string function to every constant alternative.
func (x *Exec) mapRope(r *Rope, f func(string) *Rope) (*Rope, bool) {
	if s, ok := r.konst(); ok {
		return f(s), true
	}
	alts, ok := r.expand(x.c, 4096)
	if !ok {
		return nil, false
	}
	var res *Rope
	for i := len(alts) - 1; i >= 0; i-- {
		s, ok := alts[i].r.konst()
		if !ok {
			return nil, false
		}
		v := f(s)
		if res == nil {
			res = v
		} else {
			res = x.mergeRope(alts[i].g, v, res)
		}
	}
	return res, res != nil
}

// ropeLen returns the length as a 64-bit term.
func (x *Exec) ropeLen(r *Rope) BV {
	c := x.c
	total := c.Const(0, 64)
	for _, s := range r.segs {
		switch {
		case s.ch != nil:
			total = c.BVAdd(total, c.Const(1, 64))
		case s.fm != nil:
			f := make(BV, 64)
			for i := range f {
				if i < 6 {
					f[i] = c.Var("fmtlen:" + segKey(s) + fmt.Sprint(i))
				} else {
					f[i] = c.F
				}
			}
			x.note("length of formatted value is unconstrained")
			total = c.BVAdd(total, f)
		case s.alts != nil:
			var acc BV
			for i := len(s.alts) - 1; i >= 0; i-- {
				l := x.ropeLen(s.alts[i].r)
				if acc == nil {
					acc = l
				} else {
					acc = c.BVIte(s.alts[i].g, l, acc)
				}
			}
			total = c.BVAdd(total, acc)
		default:
			total = c.BVAdd(total, c.Const(uint64(len(s.lit)), 64))
		}
	}
	return total
}

// ropeEq decides equality; unresolvable comparisons give a fresh unknown.
func (x *Exec) ropeEq(a, b *Rope) *B {
	c := x.c
	if a.key() == b.key() {
		return c.T
	}
	if sa, ok := a.konst(); ok {
		if sb, ok := b.konst(); ok {
			return c.Bool(sa == sb)
		}
		if sa == "" {
			return x.ropeEmpty(b)
		}
	}
	if sb, ok := b.konst(); ok && sb == "" {
		return x.ropeEmpty(a)
	}
	if p, ok := a.bytes(c); ok {
		if q, ok := b.bytes(c); ok {
			if len(p) != len(q) {
				return c.F
			}
			var parts []*B
			for i := range p {
				parts = append(parts, c.BVEq(p[i], q[i]))
			}
			return c.AndAll(parts)
		}
	}
	m := &matcher{x: x, memo: map[string]*B{}}
	return m.match(a.segs, b.segs)
}

// ropeEmpty decides whether a rope is the empty string; the text of a
// formatted value never is.
func (x *Exec) ropeEmpty(r *Rope) *B {
	c := x.c
	var parts []*B
	for _, s := range r.segs {
		switch {
		case s.ch != nil, s.fm != nil:
			return c.F
		case s.alts != nil:
			var any []*B
			for _, a := range s.alts {
				any = append(any, c.And(a.g, x.ropeEmpty(a.r)))
			}
			parts = append(parts, c.OrAll(any))
		case s.lit != "":
			return c.F
		}
	}
	return c.AndAll(parts)
}

// matcher compares two symbolic strings piece by piece.
type matcher struct {
	x      *Exec
	prefix bool // b only has to be a prefix of a
	memo   map[string]*B
	steps  int
}

func segsKey(s []Seg) string { return (&Rope{segs: s}).key() }

// match decides a == b (or that a starts with b); a pair of pieces that cannot
// be compared gives an unknown of its own, which leaves the answer open.
func (m *matcher) match(a, b []Seg) *B {
	c := m.x.c
	for len(a) > 0 && len(b) > 0 {
		s, t := a[0], b[0]
		if s.isLit() && t.isLit() {
			n := len(s.lit)
			if len(t.lit) < n {
				n = len(t.lit)
			}
			if s.lit[:n] != t.lit[:n] {
				return c.F
			}
			a, b = dropLit(a, n), dropLit(b, n)
			continue
		}
		if segKey(s) == segKey(t) {
			a, b = a[1:], b[1:]
			continue
		}
		break
	}
	if !m.prefix {
		for len(a) > 0 && len(b) > 0 {
			s, t := a[len(a)-1], b[len(b)-1]
			if s.isLit() && t.isLit() {
				n := len(s.lit)
				if len(t.lit) < n {
					n = len(t.lit)
				}
				if s.lit[len(s.lit)-n:] != t.lit[len(t.lit)-n:] {
					return c.F
				}
				a, b = cutLit(a, n), cutLit(b, n)
				continue
			}
			if segKey(s) == segKey(t) {
				a, b = a[:len(a)-1], b[:len(b)-1]
				continue
			}
			break
		}
	}
	if len(b) == 0 {
		if m.prefix || len(a) == 0 {
			return c.T
		}
		return m.x.ropeEmpty(&Rope{segs: a})
	}
	if len(a) == 0 {
		return m.x.ropeEmpty(&Rope{segs: b})
	}
	k := segsKey(a) + "\x00" + segsKey(b)
	if r, ok := m.memo[k]; ok {
		return r
	}
	m.steps++
	r := m.heads(a, b)
	m.memo[k] = r
	return r
}

func dropLit(s []Seg, n int) []Seg {
	if n == len(s[0].lit) {
		return s[1:]
	}
	return append([]Seg{{lit: s[0].lit[n:]}}, s[1:]...)
}

func cutLit(s []Seg, n int) []Seg {
	l := len(s) - 1
	if n == len(s[l].lit) {
		return s[:l]
	}
	return append(append([]Seg{}, s[:l]...), Seg{lit: s[l].lit[:len(s[l].lit)-n]})
}

func (m *matcher) heads(a, b []Seg) *B {
	x, c := m.x, m.x.c
	s, t := a[0], b[0]
	if m.steps > 20000 {
		x.note("string comparison left unconstrained")
		return c.Fresh("streq")
	}
	if s.alts != nil || t.alts != nil {
		var parts []*B
		if s.alts != nil {
			for _, p := range s.alts {
				parts = append(parts, c.And(p.g, m.match(concatRope(p.r, &Rope{segs: a[1:]}).segs, b)))
			}
		} else {
			for _, p := range t.alts {
				parts = append(parts, c.And(p.g, m.match(a, concatRope(p.r, &Rope{segs: b[1:]}).segs)))
			}
		}
		return c.OrAll(parts)
	}
	iv, si, oki := intText(s)
	jv, sj, okj := intText(t)
	switch {
	case s.ch != nil && t.ch != nil:
		return c.And(c.BVEq(s.ch, t.ch), m.match(a[1:], b[1:]))
	case s.ch != nil && t.isLit():
		return c.And(c.BVEq(s.ch, c.Const(uint64(t.lit[0]), 8)), m.match(a[1:], dropLit(b, 1)))
	case t.ch != nil && s.isLit():
		return c.And(c.BVEq(t.ch, c.Const(uint64(s.lit[0]), 8)), m.match(dropLit(a, 1), b[1:]))
	case oki && okj && endsNumber(a) && endsNumber(b):
		w := len(iv)
		if len(jv) > w {
			w = len(jv)
		}
		return c.And(c.BVEq(extend(c, iv, si, w+1), extend(c, jv, sj, w+1)), m.match(a[1:], b[1:]))
	case s.fm != nil && t.fm != nil && s.fm.spec == t.fm.spec && fixedHex(s) && fixedHex(t):
		return c.And(c.BVEq(s.fm.v.(IntV).b, t.fm.v.(IntV).b), m.match(a[1:], b[1:]))
	case oki && t.isLit():
		return m.number(iv, si, a[1:], b)
	case okj && s.isLit() && !m.prefix:
		return m.number(jv, sj, b[1:], a)
	}
	if e, ok := m.floats(a, b); ok {
		return e
	}
	x.note("string comparison left unconstrained")
	return c.Fresh("streq")
}

// fixedHex tells whether a piece is a byte in two hexadecimal digits.
func fixedHex(s Seg) bool {
	v, ok := s.fm.v.(IntV)
	return ok && len(v.b) == 8 && (s.fm.spec == "%02X" || s.fm.spec == "%02x")
}

// intText is the value of a piece that is a plain decimal integer.
func intText(s Seg) (BV, bool, bool) {
	if s.fm == nil || s.fm.spec != "%d" && s.fm.spec != "%v" {
		return nil, false, false
	}
	v, ok := s.fm.v.(IntV)
	if !ok {
		return nil, false, false
	}
	_, signed, _ := intWidth(s.fm.t)
	return v.b, signed, true
}

func extend(c *Ctx, b BV, signed bool, w int) BV {
	r := append(BV{}, b...)
	for len(r) < w {
		if signed {
			r = append(r, b[len(b)-1])
		} else {
			r = append(r, c.F)
		}
	}
	return r
}

// endsNumber tells whether the text after the first piece cannot prolong a number.
func endsNumber(s []Seg) bool { return noNumber(s[1:]) }

func noNumber(s []Seg) bool {
	if len(s) == 0 {
		return true
	}
	if s[0].alts != nil {
		for _, a := range s[0].alts {
			if !noNumber(concatRope(a.r, &Rope{segs: s[1:]}).segs) {
				return false
			}
		}
		return true
	}
	return s[0].isLit() && !strings.ContainsRune("0123456789.eE+-", rune(s[0].lit[0]))
}

// number matches the decimal text of v followed by rest against text starting with a literal.
func (m *matcher) number(v BV, signed bool, rest, lit []Seg) *B {
	c := m.x.c
	l := lit[0].lit
	var parts []*B
	n := 0
	if signed && l[0] == '-' {
		n = 1
	}
	for n < len(l) && l[n] >= '0' && l[n] <= '9' && n < 20 {
		n++
		num := l[:n]
		z, ok := new(big.Int).SetString(num, 10)
		if !ok || z.String() != num {
			continue
		}
		w := len(v) + 1
		if z.BitLen() >= w {
			break
		}
		parts = append(parts, c.And(c.BVEq(extend(c, v, signed, w), c.ConstBig(new(big.Int).And(z, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))), w)), m.match(rest, dropLit(lit, n))))
	}
	if n == len(l) && (len(lit) > 1 || m.prefix) {
		// the literal may end inside the number
		if vals, ok := m.x.values(v); ok && len(lit) == 1 {
			for _, u := range vals {
				if t := decimal(u, signed); len(t) > n && t[:n] == l {
					parts = append(parts, c.BVEq(v, u))
				}
			}
			return c.OrAll(parts)
		}
		m.x.note("string comparison left unconstrained")
		parts = append(parts, c.Fresh("streq"))
	}
	return c.OrAll(parts)
}

// floats compares texts of which one starts with a formatted float.
func (m *matcher) floats(a, b []Seg) (*B, bool) {
	if a[0].fm != nil && b[0].fm != nil && a[0].fm.spec == b[0].fm.spec && endsNumber(a) && endsNumber(b) {
		p, ok1 := a[0].fm.v.(FloatV)
		q, ok2 := b[0].fm.v.(FloatV)
		if ok1 && ok2 && p.size == q.size {
			c := m.x.c
			eq := c.Or(m.x.equal(nil, p, q), c.And(p.spec, q.spec, c.Fresh("streq")))
			if a[0].fm.spec != "%v" && a[0].fm.spec != "%g" {
				if r, ok := m.x.roundedEq(a[0].fm.spec, p.l, q.l); ok {
					eq = c.Or(c.And(c.Not(p.spec), c.Not(q.spec), r), c.And(p.spec, q.spec, c.Fresh("streq")))
				} else {
					// rounded text: equal values look alike, others may
					eq = c.Or(eq, c.Fresh("streq"))
				}
			}
			return c.And(eq, m.match(a[1:], b[1:])), true
		}
	}
	for i := 0; i < 2; i++ {
		if a[0].fm != nil && b[0].isLit() {
			if _, ok := a[0].fm.v.(FloatV); ok && !strings.Contains(a[0].fm.spec, " ") && !strings.ContainsRune("0123456789+-NI", rune(b[0].lit[0])) {
				return m.x.c.F, true
			}
		}
		a, b = b, a
	}
	return nil, false
}

var fixedPoint = regexp.MustCompile(`^%[-+ 0#]*[0-9]*(\.[0-9]*)?f$`)

// roundedEq compares the texts of two values printed with a fixed number of decimals.
func (x *Exec) roundedEq(spec string, p, q *Lin) (*B, bool) {
	f := fixedPoint.FindStringSubmatch(spec)
	if f == nil {
		return nil, false
	}
	n := 6
	if f[1] != "" {
		n, _ = strconv.Atoi("0" + f[1][1:])
	}
	a, na, ok1 := x.c.decimals(p, n)
	b, nb, ok2 := x.c.decimals(q, n)
	if !ok1 || !ok2 {
		return nil, false
	}
	return x.c.And(x.c.BVEq(a, b), x.c.Not(x.c.Xor(na, nb))), true
}

// decimals is l*10^n rounded to the nearest integer, ties to even, and whether
// l is negative; l must be a dyadic combination of bits.
func (c *Ctx) decimals(l *Lin, n int) (BV, *B, bool) {
	if len(l.rt) > 0 || len(l.bt) > 200 || n > 9 {
		return nil, nil, false
	}
	ten := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil))
	s := 0
	need := func(r *big.Rat) bool {
		d := r.Denom()
		if k := d.BitLen() - 1; d.TrailingZeroBits() == uint(k) {
			if k > s {
				s = k
			}
			return true
		}
		return false
	}
	k := rmul(l.k, ten)
	if !need(k) {
		return nil, nil, false
	}
	for _, t := range l.bt {
		if !need(rmul(t.c, ten)) {
			return nil, nil, false
		}
	}
	const w = 96
	var sum big.Int
	scaled := func(r *big.Rat) *big.Int {
		v := rmul(r, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(s)))).Num()
		sum.Add(&sum, new(big.Int).Abs(v))
		return new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1)))
	}
	acc := c.ConstBig(scaled(k), w)
	for _, t := range l.bt {
		y := scaled(rmul(t.c, ten))
		v := make(BV, w)
		for i := range v {
			v[i] = c.F
			if y.Bit(i) == 1 {
				v[i] = t.b
			}
		}
		acc = c.BVAdd(acc, v)
	}
	if sum.BitLen() > w-4 {
		return nil, nil, false
	}
	neg := acc[w-1]
	if s == 0 {
		return acc, neg, true
	}
	acc = c.BVAdd(acc, c.ConstBig(new(big.Int).Lsh(big.NewInt(1), uint(s-1)), w))
	tie := c.T
	for i := 0; i < s; i++ {
		tie = c.And(tie, c.Not(acc[i]))
	}
	out := append(BV{}, acc[s:]...)
	for len(out) < w {
		out = append(out, acc[w-1])
	}
	out[0] = c.And(out[0], c.Not(tie))
	return out, neg, true
}

// ropeContains: does r contain the constant string sub? The text of a
// formatted value that cannot be spelled out is assumed to start no match.
func (x *Exec) ropeContains(r *Rope, sub string) *B {
	if s, ok := r.konst(); ok {
		return x.c.Bool(strings.Contains(s, sub))
	}
	if sub == "" {
		return x.c.T
	}
	m := &matcher{x: x, prefix: true, memo: map[string]*B{}}
	return m.contains(r.segs, nil, sub)
}

// contains looks for an occurrence of sub that starts in head.
func (m *matcher) contains(head, rest []Seg, sub string) *B {
	c := m.x.c
	var hits []*B
	for i, s := range head {
		tail := append(append([]Seg{}, head[i+1:]...), rest...)
		lit := func(l string) *B {
			if strings.Contains(l, sub) {
				return c.T
			}
			var h []*B
			for o := range []byte(l) {
				if strings.HasPrefix(sub, l[o:]) {
					h = append(h, m.match(tail, []Seg{{lit: sub[len(l)-o:]}}))
				}
			}
			return c.OrAll(h)
		}
		switch {
		case s.isLit():
			hits = append(hits, lit(s.lit))
		case s.ch != nil:
			p := c.BVEq(s.ch, c.Const(uint64(sub[0]), 8))
			if p != c.F && len(sub) > 1 {
				p = c.And(p, m.match(tail, []Seg{{lit: sub[1:]}}))
			}
			hits = append(hits, p)
		case s.alts != nil:
			for _, a := range s.alts {
				hits = append(hits, c.And(a.g, m.contains(a.r.segs, tail, sub)))
			}
		default:
			if !strings.ContainsRune("0123456789-", rune(sub[0])) {
				continue
			}
			v, signed, ok := intText(s)
			var vals []BV
			if ok {
				vals, ok = m.x.values(v)
			}
			if !ok {
				m.x.note("text search ignores what a formatted value may add")
				continue
			}
			for _, w := range vals {
				hits = append(hits, c.And(c.BVEq(v, w), lit(decimal(w, signed))))
			}
		}
	}
	return c.OrAll(hits)
}

func decimal(v BV, signed bool) string {
	if signed {
		z, _ := v.constSigned()
		return fmt.Sprint(z)
	}
	z, _ := v.constVal()
	return fmt.Sprint(z)
}

// values lists the values a term that depends on few bits can have.
func (x *Exec) values(v BV) ([]BV, bool) {
	var leaves []*B
	seen := map[*B]bool{}
	ok := true
	var walk func(b *B)
	walk = func(b *B) {
		if seen[b] || !ok {
			return
		}
		seen[b] = true
		switch b.k {
		case kVar:
			leaves = append(leaves, b)
			ok = len(leaves) <= 8
		case kCmp:
			ok = false
		default:
			for _, y := range b.a {
				walk(y)
			}
		}
	}
	for _, b := range v {
		walk(b)
	}
	if !ok {
		return nil, false
	}
	var res []BV
	have := map[uint64]bool{}
	for m := 0; m < 1<<uint(len(leaves)); m++ {
		e := newEval(x.c, &Assign{})
		for i, b := range leaves {
			e.memo[b] = m>>uint(i)&1 == 1
		}
		u := e.BV(v)
		if !have[u] {
			have[u] = true
			res = append(res, x.c.Const(u, len(v)))
		}
	}
	return res, true
}
