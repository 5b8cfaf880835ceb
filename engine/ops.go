package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) boolV(b *B) Value { return IntV{BV{b}} }

func (x *Exec) unop(fr *frame, st *State, i *ssa.UnOp) Value {
	c := x.c
	v := x.val(fr, st, i.X)
	switch i.Op {
	case token.MUL:
		alts := x.ptrAlts(st, v, i.Pos(), fr, "load")
		if len(alts) == 0 {
			unsup("load through nil")
		}
		var res Value
		for k := len(alts) - 1; k >= 0; k-- {
			w := x.load(st, st.heap, alts[k].r, nil)
			if res == nil {
				res = w
			} else {
				res = x.merge(alts[k].g, w, res)
			}
		}
		return res
	case token.NOT:
		return x.boolV(c.Not(v.(IntV).b[0]))
	case token.SUB:
		if f, ok := v.(FloatV); ok {
			return FloatV{c.LNeg(f.l), f.spec, f.size}
		}
		return IntV{c.BVNeg(v.(IntV).b)}
	case token.XOR:
		return IntV{c.BVNot(v.(IntV).b)}
	}
	unsup("unary %s", i.Op)
	return nil
}

func (x *Exec) binop(fr *frame, st *State, i *ssa.BinOp) Value {
	c := x.c
	a, b := x.val(fr, st, i.X), x.val(fr, st, i.Y)
	switch i.Op {
	case token.EQL:
		return x.boolV(x.equal(st, a, b))
	case token.NEQ:
		return x.boolV(c.Not(x.equal(st, a, b)))
	}
	switch p := a.(type) {
	case *Rope:
		q := b.(*Rope)
		if i.Op == token.ADD {
			return concatRope(p, q)
		}
		// ordered comparison
		return x.boolV(x.ropeLess(p, q, i.Op))
	case FloatV:
		q := b.(FloatV)
		spec := c.Or(p.spec, q.spec)
		switch i.Op {
		case token.ADD:
			return x.fl(c.LAdd(p.l, q.l), spec, p.size)
		case token.SUB:
			return x.fl(c.LSub(p.l, q.l), spec, p.size)
		case token.MUL:
			if !p.l.isConst() && !q.l.isConst() {
				if p.l = x.settle(st, p.l); !p.l.isConst() {
					q.l = x.settle(st, q.l)
				}
			}
			return x.fl(c.LMul(p.l, q.l), spec, p.size)
		case token.QUO:
			q.l = x.settle(st, q.l)
			return x.fdiv(st, p, q)
		}
		d := c.LSub(p.l, q.l)
		ns := c.Not(spec)
		if spec != c.F {
			x.note("comparison with a value that may be NaN/Inf treated as false")
		}
		switch i.Op {
		case token.LSS:
			return x.boolV(c.And(ns, c.Cmp(cmpLT, d)))
		case token.LEQ:
			return x.boolV(c.And(ns, c.Cmp(cmpLE, d)))
		case token.GTR:
			return x.boolV(c.And(ns, c.Cmp(cmpLT, c.LNeg(d))))
		case token.GEQ:
			return x.boolV(c.And(ns, c.Cmp(cmpLE, c.LNeg(d))))
		}
	case IntV:
		_, signed, _ := intWidth(i.X.Type())
		q := b.(IntV)
		switch i.Op {
		case token.SHL, token.SHR:
			_, ys, _ := intWidth(i.Y.Type())
			if ys {
				x.panicAt(st, q.b[len(q.b)-1], "negative shift amount", i.Pos(), fr)
			}
			return IntV{c.Shift(p.b, q.b, i.Op == token.SHL, signed)}
		case token.ADD:
			return IntV{c.BVAdd(p.b, q.b)}
		case token.SUB:
			return IntV{c.BVSub(p.b, q.b)}
		case token.MUL:
			return IntV{c.BVMul(p.b, q.b)}
		case token.QUO, token.REM:
			z := c.BVEq(q.b, c.Const(0, len(q.b)))
			x.panicAt(st, z, "integer divide by zero", i.Pos(), fr)
			if z == c.T {
				return IntV{p.b}
			}
			var d, r BV
			if signed {
				d, r = c.SDivRem(p.b, q.b)
			} else {
				d, r = c.UDivRem(p.b, q.b)
			}
			if i.Op == token.QUO {
				return IntV{d}
			}
			return IntV{r}
		case token.AND:
			return IntV{c.BVAnd(p.b, q.b)}
		case token.OR:
			return IntV{c.BVOr(p.b, q.b)}
		case token.XOR:
			return IntV{c.BVXor(p.b, q.b)}
		case token.AND_NOT:
			return IntV{c.BVAnd(p.b, c.BVNot(q.b))}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			l, r := p.b, q.b
			if i.Op == token.GTR || i.Op == token.GEQ {
				l, r = r, l
			}
			strict := i.Op == token.LSS || i.Op == token.GTR
			var res *B
			switch {
			case signed && strict:
				res = c.SLT(l, r)
			case signed:
				res = c.SLE(l, r)
			case strict:
				res = c.ULT(l, r)
			default:
				res = c.ULE(l, r)
			}
			return x.boolV(res)
		case token.LAND:
			return IntV{c.BVAnd(p.b, q.b)}
		case token.LOR:
			return IntV{c.BVOr(p.b, q.b)}
		}
	}
	unsup("binary %s on %T", i.Op, a)
	return nil
}

func (x *Exec) fl(l *Lin, spec *B, size int) Value {
	return FloatV{x.c.Round(l, size), spec, size}
}

func (x *Exec) fdiv(st *State, p, q FloatV) Value {
	c := x.c
	spec := c.Or(p.spec, q.spec)
	if q.l.isConst() {
		if q.l.k.Sign() == 0 {
			return FloatV{p.l, c.T, p.size}
		}
		return x.fl(c.LScale(p.l, new(big.Rat).Inv(q.l.k)), spec, p.size)
	}
	zero := x.uniCmp(st, cmpEQ, q.l)
	if p.l.isConst() && p.l.k.Sign() == 0 {
		return FloatV{p.l, c.Or(spec, zero), p.size}
	}
	var lo, hi *big.Rat
	if p.l.lo != nil && p.l.hi != nil && q.l.lo != nil && q.l.hi != nil && (q.l.lo.Sign() > 0 || q.l.hi.Sign() < 0) {
		for k, n := range []*big.Rat{p.l.lo, p.l.hi, p.l.lo, p.l.hi} {
			d := q.l.lo
			if k >= 2 {
				d = q.l.hi
			}
			r := new(big.Rat).Quo(n, d)
			if k == 0 {
				lo, hi = r, r
			}
			lo, hi = minR(lo, r), maxR(hi, r)
		}
	}
	return x.fl(c.LofRV(c.rv(rDiv, "", p.l, q.l, nil, lo, hi)), c.Or(spec, zero), p.size)
}

func (x *Exec) ropeLess(a, b *Rope, op token.Token) *B {
	c := x.c
	sa, ok1 := a.konst()
	sb, ok2 := b.konst()
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return c.Bool(sa < sb)
		case token.LEQ:
			return c.Bool(sa <= sb)
		case token.GTR:
			return c.Bool(sa > sb)
		case token.GEQ:
			return c.Bool(sa >= sb)
		}
	}
	unsup("ordered comparison of symbolic strings")
	return nil
}

// equal is Go's == on two values of the same static type.
func (x *Exec) equal(st *State, a, b Value) *B {
	c := x.c
	switch p := a.(type) {
	case IntV:
		return c.BVEq(p.b, b.(IntV).b)
	case FloatV:
		q := b.(FloatV)
		return c.And(c.Not(p.spec), c.Not(q.spec), c.Cmp(cmpEQ, c.LSub(p.l, q.l)))
	case *Rope:
		return x.ropeEq(p, b.(*Rope))
	case StructV:
		q := b.(StructV)
		var ps []*B
		for i := range p.f {
			ps = append(ps, x.equal(st, p.f[i], q.f[i]))
		}
		return c.AndAll(ps)
	case ArrayV:
		q := b.(ArrayV)
		var ps []*B
		for i := range p.e {
			ps = append(ps, x.equal(st, p.e[i], q.e[i]))
		}
		return c.AndAll(ps)
	case PtrV:
		q, ok := b.(PtrV)
		if !ok {
			unsup("pointer compared with %T", b)
		}
		var ps []*B
		for _, s := range p.alts {
			for _, t := range q.alts {
				if sameRef(s.r, t.r) || (s.r.obj == 0 && t.r.obj == 0) {
					ps = append(ps, c.And(s.g, t.g))
				}
			}
		}
		return c.OrAll(ps)
	case SliceV:
		// only comparison with nil is legal
		q := b.(SliceV)
		nilOf := func(v SliceV) *B {
			var ps []*B
			for _, s := range v.alts {
				if s.r.obj == 0 {
					ps = append(ps, s.g)
				}
			}
			return c.OrAll(ps)
		}
		return c.And(nilOf(p), nilOf(q))
	case MapV:
		q := b.(MapV)
		nilOf := func(v MapV) *B {
			var ps []*B
			for _, s := range v.alts {
				if s.obj == 0 {
					ps = append(ps, s.g)
				}
			}
			return c.OrAll(ps)
		}
		return c.And(nilOf(p), nilOf(q))
	case FuncV:
		q := b.(FuncV)
		nilOf := func(v FuncV) *B {
			var ps []*B
			for _, s := range v.alts {
				if s.fn == nil && s.nat == "" {
					ps = append(ps, s.g)
				}
			}
			return c.OrAll(ps)
		}
		return c.And(nilOf(p), nilOf(q))
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			unsup("interface compared with %T", b)
		}
		var ps []*B
		for _, s := range p.alts {
			for _, t := range q.alts {
				g := c.And(s.g, t.g)
				if g == c.F {
					continue
				}
				switch {
				case s.t == nil && t.t == nil:
					ps = append(ps, g)
				case s.t != nil && t.t != nil && types.Identical(s.t, t.t):
					ps = append(ps, c.And(g, x.equal(st, s.v, t.v)))
				}
			}
		}
		return c.OrAll(ps)
	}
	unsup("equality on %T", a)
	return nil
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	if tp, ok := to.Underlying().(*types.Basic); ok && tp.Kind() == types.UnsafePointer {
		return v
	}
	if iv, ok := v.(IntV); ok {
		_, s, _ := intWidth(from)
		if w, _, ok := intWidth(to); ok {
			return IntV{c.Resize(iv.b, w, s)}
		}
		if fs := floatSize(to); fs != 0 {
			return x.fl(c.LFromBV(iv.b, s), c.F, fs)
		}
		if isString(to) { // string(rune)
			if cv, ok := iv.b.constSigned(); ok {
				return litStr(string(rune(cv)))
			}
			b := c.Resize(iv.b, 32, s)
			hi := c.F
			for _, y := range b[7:] {
				hi = c.Or(hi, y)
			}
			if hi = x.simp(st.pc, hi); hi != c.F {
				x.note("string(rune) modelled for ASCII only")
			}
			return byteRope(append(append(BV{}, b[:7]...), c.F))
		}
	}
	if fv, ok := v.(FloatV); ok {
		if fs := floatSize(to); fs != 0 {
			if fs >= fv.size {
				return FloatV{fv.l, fv.spec, fs}
			}
			return x.fl(fv.l, fv.spec, fs)
		}
		if w, s, ok := intWidth(to); ok {
			return IntV{x.truncToInt(fv, w, s)}
		}
	}
	if r, ok := v.(*Rope); ok {
		if isString(to) {
			return r
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if w, _, _ := intWidth(sl.Elem()); w == 8 {
				return x.ropeToBytes(st, r)
			}
			if k, ok := r.konst(); ok {
				rs := []rune(k)
				a := ArrayV{}
				for _, q := range rs {
					a.e = append(a.e, IntV{c.Const(uint64(q), 32)})
				}
				o := x.newObj()
				st.heap = st.heap.set(o, a)
				return SliceV{[]SliceAlt{{g: c.T, r: Ref{obj: o}, len: len(a.e), cap: len(a.e)}}}
			}
		}
	}
	if sv, ok := v.(SliceV); ok && isString(to) {
		var res *Rope
		for k := len(sv.alts) - 1; k >= 0; k-- {
			a := sv.alts[k]
			var parts []*Rope
			for _, e := range x.sliceElems(st, a) {
				b := e.(IntV).b
				if len(b) != 8 {
					// []rune -> string
					if cv, ok := b.constSigned(); ok {
						parts = append(parts, litStr(string(rune(cv))))
						continue
					}
					x.note("string([]rune) modelled for ASCII only")
					b = append(append(BV{}, b[:7]...), c.F)
				}
				parts = append(parts, byteRope(b))
			}
			r := concatRope(parts...)
			if res == nil {
				res = r
			} else {
				res = x.mergeRope(a.g, r, res)
			}
		}
		return res
	}
	switch v.(type) {
	case PtrV:
		return v
	}
	unsup("conversion from %s to %s", from, to)
	return nil
}

func (x *Exec) ropeToBytes(st *State, r *Rope) Value {
	c := x.c
	if fv, ok := r.bytes(c); ok {
		a := ArrayV{}
		for _, b := range fv {
			a.e = append(a.e, IntV{b})
		}
		o := x.newObj()
		st.heap = st.heap.set(o, a)
		return SliceV{[]SliceAlt{{g: c.T, r: Ref{obj: o}, len: len(a.e), cap: len(a.e)}}}
	}
	alts, ok := r.expand(c, 256)
	if !ok {
		unsup("[]byte of complex string")
	}
	var out SliceV
	for _, t := range alts {
		fv, ok := t.r.bytes(c)
		if !ok {
			unsup("[]byte of formatted string")
		}
		a := ArrayV{}
		for _, b := range fv {
			a.e = append(a.e, IntV{b})
		}
		o := x.newObj()
		st.heap = st.heap.set(o, a)
		out.alts = append(out.alts, SliceAlt{g: t.g, r: Ref{obj: o}, len: len(a.e), cap: len(a.e)})
	}
	return out
}

// sliceElems lists the elements of one slice alternative.
func (x *Exec) sliceElems(st *State, a SliceAlt) []Value {
	if a.len == 0 || a.r.obj == 0 {
		return nil
	}
	arr := x.load(st, st.heap, a.r, nil).(ArrayV)
	return arr.e[a.off : a.off+a.len]
}

// floorInt returns bits of floor(l) as a two's complement vector wide enough
// for its interval, introducing a definition.
func (x *Exec) floorBits(l *Lin) (BV, bool) {
	c := x.c
	if l.isConst() {
		q := new(big.Int).Div(l.k.Num(), l.k.Denom())
		return c.ConstBig(q, 64), true
	}
	if g := linGran(l); g != noGran && g >= 0 && l.lo != nil && l.hi != nil && len(l.rt) == 0 {
		// integer-valued bit sum
		acc := c.Const(0, 64)
		ok := true
		one := func(r *big.Rat, b *B) {
			if !r.IsInt() || r.Num().BitLen() > 62 {
				ok = false
				return
			}
			v := c.ConstBig(r.Num(), 64)
			for i := range v {
				v[i] = c.And(v[i], b)
			}
			acc = c.BVAdd(acc, v)
		}
		for _, t := range l.bt {
			one(t.c, t.b)
		}
		one(l.k, c.T)
		if ok {
			return acc, true
		}
	}
	if l.lo == nil || l.hi == nil {
		return nil, false
	}
	lim := maxR(rabs(l.lo), rabs(l.hi))
	n := new(big.Int).Quo(lim.Num(), lim.Denom()).BitLen() + 2
	if n > 40 {
		return nil, false
	}
	key := fmt.Sprintf("floor%d", l.id)
	bits := make(BV, n)
	for i := range bits {
		i := i
		bits[i] = c.Var(fmt.Sprintf("%s.%d", key, i))
		c.defs[bits[i]] = func(e *evaluator) bool {
			r := e.Lin(l)
			q := new(big.Int).Div(r.Num(), r.Denom())
			m := new(big.Int).Mod(q, new(big.Int).Lsh(big.NewInt(1), uint(n)))
			return m.Bit(i) == 1
		}
	}
	q := c.LFromBV(bits, true)
	// q <= l < q+1
	ax := c.And(c.Cmp(cmpLE, c.LSub(q, l)), c.Cmp(cmpLT, c.LSub(c.LSub(l, q), c.LConst(rat(1)))))
	if u := unitOfOne(l); c.pathMode && u != nil {
		ax = c.And(c.Cmp(cmpLE, c.LSub(q, l)), c.Cmp(cmpLE, c.LSub(c.LSub(l, q), c.LConst(rsub(rat(1), u)))))
	}
	if c.tab["ax:"+key] == nil {
		c.tab["ax:"+key] = c.T
		c.axioms = append(c.axioms, axiom{b: ax, bs: bits})
	}
	return c.Resize(bits, 64, true), true
}

func (x *Exec) truncToInt(f FloatV, w int, signed bool) BV {
	c := x.c
	fb, ok := x.floorBits(f.l)
	if !ok {
		unsup("conversion of unbounded float to integer %v (path %d, decisions %v)", f.l, x.run, x.decs)
	}
	if f.spec != c.F {
		x.note("integer conversion of a value that may be NaN/Inf")
	}
	neg := c.Cmp(cmpLT, f.l)
	if neg != c.F {
		// truncation toward zero: for negative values use -floor(-x)
		nb, _ := x.floorBits(c.LNeg(f.l))
		fb = c.BVIte(neg, c.BVNeg(nb), fb)
	}
	return c.Resize(fb, w, true)
}

// ---------------------------------------------------------------- maps

func (x *Exec) mapObj(st *State, o int) *MapObj {
	v, ok := st.heap.get(o)
	if !ok {
		unsup("unknown map object")
	}
	return v.(*MapObj)
}

func (x *Exec) mapLookup(st *State, m, key Value, mt types.Type, commaOk bool) Value {
	c := x.c
	et := mt.Underlying().(*types.Map).Elem()
	zero := x.zero(et)
	var res Value = zero
	present := c.F
	for _, a := range m.(MapV).alts {
		if a.obj == 0 {
			continue
		}
		ag := x.simp(st.pc, a.g)
		if ag == c.F {
			continue
		}
		mo := x.mapObj(st, a.obj)
		var r Value = zero
		pr := c.F
		for _, u := range mo.upd {
			g := c.And(u.g, x.equal(st, u.key, key))
			if g == c.F {
				continue
			}
			if u.val == nil {
				r = x.merge(g, zero, r)
				pr = c.And(pr, c.Not(g))
				continue
			}
			r = x.merge(g, u.val, r)
			pr = c.Or(g, pr)
		}
		res = x.merge(ag, r, res)
		present = c.Ite(ag, pr, present)
	}
	if commaOk {
		return TupleV{[]Value{res, x.boolV(present)}}
	}
	return res
}

func (x *Exec) mapUpdate(fr *frame, st *State, m, key, val Value, p token.Pos) {
	c := x.c
	for _, a := range m.(MapV).alts {
		g := x.simp(st.pc, a.g)
		if g == c.F {
			continue
		}
		if a.obj == 0 {
			x.panicAt(st, g, "assignment to entry in nil map", p, fr)
			continue
		}
		x.noteWrite(st, g, Ref{obj: a.obj}, p)
		mo := x.mapObj(st, a.obj)
		n := &MapObj{mo.kt, mo.vt, append(append([]MapUpd{}, mo.upd...), MapUpd{g, key, val})}
		st.heap = st.heap.set(a.obj, n)
	}
}

// mapEntries lists (guard, key, value) with each live key exactly once.
func (x *Exec) mapEntries(st *State, mo *MapObj) (gs []*B, ks, vs []Value) {
	c := x.c
	for i, u := range mo.upd {
		if u.val == nil {
			continue
		}
		g := u.g
		for _, w := range mo.upd[i+1:] {
			g = c.And(g, c.Not(c.And(w.g, x.equal(st, u.key, w.key))))
		}
		if g == c.F {
			continue
		}
		gs = append(gs, g)
		ks = append(ks, u.key)
		vs = append(vs, u.val)
	}
	return
}

func (x *Exec) mapLen(st *State, m MapV) BV {
	c := x.c
	res := c.Const(0, 64)
	for _, a := range m.alts {
		if a.obj == 0 {
			continue
		}
		gs, _, _ := x.mapEntries(st, x.mapObj(st, a.obj))
		n := c.Const(0, 64)
		for _, g := range gs {
			n = c.BVAdd(n, c.Resize(BV{g}, 64, false))
		}
		res = c.BVIte(a.g, n, res)
	}
	return res
}

func (x *Exec) mkRange(st *State, v Value) Value {
	c := x.c
	it := &IterV{pos: x.newObj()}
	st.heap = st.heap.set(it.pos, IntV{c.Const(0, 32)})
	switch p := v.(type) {
	case *Rope:
		if k, ok := p.konst(); ok {
			for i, r := range k {
				it.keys = append(it.keys, IntV{c.Const(uint64(i), 64)})
				it.vals = append(it.vals, IntV{c.Const(uint64(uint32(r)), 32)})
				it.gs = append(it.gs, c.T)
			}
			return it
		}
		bs, ok := p.bytes(c)
		if !ok {
			unsup("range over complex string")
		}
		x.note("range over symbolic string modelled for ASCII only")
		for i, b := range bs {
			it.keys = append(it.keys, IntV{c.Const(uint64(i), 64)})
			it.vals = append(it.vals, IntV{c.Resize(b, 32, false)})
			it.gs = append(it.gs, c.T)
		}
		return it
	case MapV:
		if len(p.alts) != 1 {
			unsup("range over several maps")
		}
		if p.alts[0].obj == 0 {
			return it
		}
		gs, ks, vs := x.mapEntries(st, x.mapObj(st, p.alts[0].obj))
		x.note("range over a map explored in insertion order")
		it.gs, it.keys, it.vals = gs, ks, vs
		for _, g := range gs {
			if g != c.T {
				unsup("range over a map with conditional entries")
			}
		}
		return it
	}
	unsup("range over %T", v)
	return nil
}

func (x *Exec) next(st *State, it *IterV, i *ssa.Next) Value {
	c := x.c
	pv, _ := st.heap.get(it.pos)
	n, ok := pv.(IntV).b.constVal()
	if !ok {
		unsup("iterator position is symbolic")
	}
	tt := i.Type().(*types.Tuple)
	if int(n) >= len(it.keys) {
		z := func(k int) Value {
			t := tt.At(k).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return x.boolV(c.F)
			}
			return x.zero(t)
		}
		return TupleV{[]Value{x.boolV(c.F), z(1), z(2)}}
	}
	st.heap = st.heap.set(it.pos, IntV{c.Const(n+1, 32)})
	return TupleV{[]Value{x.boolV(c.T), it.keys[n], it.vals[n]}}
}

// ---------------------------------------------------------------- calls

func (x *Exec) call(fr *frame, st *State, cc *ssa.CallCommon, i *ssa.Call) (Value, bool) {
	c := x.c
	var args []Value
	if cc.IsInvoke() {
		recv := x.val(fr, st, cc.Value).(IfaceV)
		for _, a := range cc.Args {
			args = append(args, x.val(fr, st, a))
		}
		var outs []retState
		nilG := c.F
		type live struct {
			g *B
			a IfaceAlt
		}
		var lv []live
		for _, a := range recv.alts {
			g := x.simp(st.pc, a.g)
			if g == c.F {
				continue
			}
			if a.t == nil {
				nilG = c.Or(nilG, g)
				continue
			}
			lv = append(lv, live{g, a})
		}
		x.panicAt(st, nilG, "method call on nil interface", i.Pos(), fr)
		if st.pc.full == c.F {
			return nil, false
		}
		base := *st
		for k, l := range lv {
			pc := base.pc
			if len(lv) > 1 {
				g := l.g
				if k == len(lv)-1 { // exhaustive
					rest := c.F
					for _, o := range lv[:k] {
						rest = c.Or(rest, o.g)
					}
					g = c.And(l.g, c.Not(rest))
				}
				pc = x.pcAdd(pc, x.simp(base.pc, g))
			}
			if pc.full == c.F {
				continue
			}
			fn := x.prog.LookupMethod(l.a.t, cc.Method.Pkg(), cc.Method.Name())
			if fn == nil {
				unsup("method %s of %s", cc.Method.Name(), l.a.t)
			}
			sub := &State{pc: pc, heap: base.heap.fork(), env: base.env}
			v, ok := x.callStatic(fr, sub, fn, append([]Value{l.a.v}, args...), nil, cc, i)
			if ok {
				outs = append(outs, retState{sub, v})
			}
		}
		return x.joinRets(st, outs)
	}
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	if fn := cc.StaticCallee(); fn != nil {
		var bind []Value
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, y := range mc.Bindings {
				bind = append(bind, x.val(fr, st, y))
			}
		}
		return x.callStatic(fr, st, fn, args, bind, cc, i)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b.Name(), args, cc, i)
	}
	return x.callValue(fr, st, x.val(fr, st, cc.Value), args, cc, i.Pos())
}

func (x *Exec) joinRets(st *State, outs []retState) (Value, bool) {
	if len(outs) == 0 {
		return nil, false
	}
	r := outs[0]
	for _, o := range outs[1:] {
		pc, sel := x.mergePC(r.st.pc, o.st.pc)
		h := x.mergeHeap(sel, r.st.heap, o.st.heap)
		var v Value
		if r.v != nil && o.v != nil {
			v = x.merge(sel, r.v, o.v)
		}
		r = retState{&State{pc: pc, heap: h}, v}
	}
	st.pc, st.heap = r.st.pc, r.st.heap
	return r.v, true
}

func (x *Exec) callValue(fr *frame, st *State, f Value, args []Value, cc *ssa.CallCommon, p token.Pos) (Value, bool) {
	c := x.c
	fv, ok := f.(FuncV)
	if !ok {
		unsup("call of %T", f)
	}
	var outs []retState
	base := *st
	var lv []FuncAlt
	nilG := c.F
	for _, a := range fv.alts {
		g := x.simp(st.pc, a.g)
		if g == c.F {
			continue
		}
		if a.fn == nil && a.nat == "" {
			nilG = c.Or(nilG, g)
			continue
		}
		a.g = g
		lv = append(lv, a)
	}
	x.panicAt(&base, nilG, "call of nil function", p, fr)
	if base.pc.full == c.F {
		return nil, false
	}
	for _, a := range lv {
		pc := base.pc
		if len(lv) > 1 {
			pc = x.pcAdd(pc, a.g)
		}
		if pc.full == c.F {
			continue
		}
		sub := &State{pc: pc, heap: base.heap.fork(), env: base.env}
		if strings.HasPrefix(a.nat, "builtin:") {
			v, ok := x.builtin(fr, sub, a.nat[8:], args, cc, nil)
			if ok {
				outs = append(outs, retState{sub, v})
			}
			continue
		}
		v, ok := x.callStatic(fr, sub, a.fn, args, a.bind, cc, nil)
		if ok {
			outs = append(outs, retState{sub, v})
		}
	}
	return x.joinRets(st, outs)
}

func (x *Exec) callStatic(fr *frame, st *State, fn *ssa.Function, args, bind []Value, cc *ssa.CallCommon, i *ssa.Call) (Value, bool) {
	if h, ok := x.intrinsic(fn); ok {
		return h(x, fr, st, fn, args, cc)
	}
	v, pc, heap := x.callFn(fn, args, bind, st.pc, st.heap)
	if pc == nil {
		return nil, false
	}
	st.pc, st.heap = pc, heap
	return v, true
}

func (x *Exec) builtin(fr *frame, st *State, name string, args []Value, cc *ssa.CallCommon, i *ssa.Call) (Value, bool) {
	c := x.c
	pos := token.NoPos
	if i != nil {
		pos = i.Pos()
	}
	switch name {
	case "len", "cap":
		switch p := args[0].(type) {
		case *Rope:
			return IntV{x.ropeLen(p)}, true
		case SliceV:
			var r BV
			for k := len(p.alts) - 1; k >= 0; k-- {
				n := p.alts[k].len
				if name == "cap" {
					n = p.alts[k].cap
				}
				v := c.Const(uint64(n), 64)
				if r == nil {
					r = v
				} else {
					r = c.BVIte(x.simp(st.pc, p.alts[k].g), v, r)
				}
			}
			return IntV{r}, true
		case MapV:
			return IntV{x.mapLen(st, p)}, true
		case ArrayV:
			return IntV{c.Const(uint64(len(p.e)), 64)}, true
		case PtrV:
			t := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return IntV{c.Const(uint64(t.Len()), 64)}, true
		}
	case "append":
		return x.appendB(fr, st, args, cc), true
	case "copy":
		dst := args[0].(SliceV)
		srcB := args[1]
		if r, ok := srcB.(*Rope); ok {
			srcB = x.ropeToBytes(st, r)
		}
		src := srcB.(SliceV)
		var n BV = c.Const(0, 64)
		type op struct {
			g    *B
			d    SliceAlt
			vals []Value
		}
		var ops []op
		for _, d := range dst.alts {
			dg := x.simp(st.pc, d.g)
			for _, s := range src.alts {
				g := c.And(dg, x.simp(st.pc, s.g))
				if g == c.F {
					continue
				}
				m := d.len
				if s.len < m {
					m = s.len
				}
				n = c.BVIte(g, c.Const(uint64(m), 64), n)
				if m > 0 {
					ops = append(ops, op{g, d, append([]Value{}, x.sliceElems(st, s)[:m]...)})
				}
			}
		}
		for _, o := range ops {
			x.noteWrite(st, o.g, o.d.r, pos)
			arr := x.load(st, st.heap, o.d.r, nil).(ArrayV)
			e := append([]Value{}, arr.e...)
			for k, v := range o.vals {
				e[o.d.off+k] = x.merge(o.g, v, e[o.d.off+k])
			}
			x.store(st, o.d.r, ArrayV{e})
		}
		return IntV{n}, true
	case "delete":
		x.mapUpdate(fr, st, args[0], args[1], nil, pos)
		return nil, true
	case "print", "println":
		return nil, true
	case "min", "max":
		r := args[0]
		_, signed, _ := intWidth(cc.Args[0].Type())
		for _, a := range args[1:] {
			var less *B // a < r
			switch p := a.(type) {
			case IntV:
				if signed {
					less = c.SLT(p.b, r.(IntV).b)
				} else {
					less = c.ULT(p.b, r.(IntV).b)
				}
			case FloatV:
				less = c.Cmp(cmpLT, c.LSub(p.l, r.(FloatV).l))
			default:
				unsup("%s of %T", name, a)
			}
			if name == "max" {
				less = c.Not(less)
			}
			r = x.merge(less, a, r)
		}
		return r, true
	case "recover":
		return IfaceV{[]IfaceAlt{{g: c.T}}}, true
	case "ssa:wrapnilchk":
		x.ptrAlts(st, args[0], pos, fr, "method value")
		return args[0], st.pc.full != c.F
	case "clear":
		if m, ok := args[0].(MapV); ok && len(m.alts) == 1 && m.alts[0].obj != 0 {
			mo := x.mapObj(st, m.alts[0].obj)
			st.heap = st.heap.set(m.alts[0].obj, &MapObj{kt: mo.kt, vt: mo.vt})
			return nil, true
		}
	}
	unsup("builtin %s", name)
	return nil, false
}

func (x *Exec) appendB(fr *frame, st *State, args []Value, cc *ssa.CallCommon) Value {
	c := x.c
	dst := args[0].(SliceV)
	if len(args) < 2 {
		return dst
	}
	srcV := args[1]
	if r, ok := srcV.(*Rope); ok {
		srcV = x.ropeToBytes(st, r)
	}
	src := srcV.(SliceV)
	var out SliceV
	base := st.heap
	_ = base
	for _, d := range dst.alts {
		dg := x.simp(st.pc, d.g)
		if dg == c.F {
			continue
		}
		for _, s := range src.alts {
			g := c.And(dg, x.simp(st.pc, s.g))
			if g == c.F {
				continue
			}
			if s.len == 0 {
				d2 := d
				d2.g = g
				out.alts = append(out.alts, d2)
				continue
			}
			vals := append([]Value{}, x.sliceElems(st, s)...)
			if d.len+s.len <= d.cap && d.r.obj != 0 {
				x.noteWrite(st, g, d.r, token.NoPos)
				arr := x.load(st, st.heap, d.r, nil).(ArrayV)
				e := append([]Value{}, arr.e...)
				for k, v := range vals {
					e[d.off+d.len+k] = x.merge(g, v, e[d.off+d.len+k])
				}
				x.store(st, d.r, ArrayV{e})
				out.alts = append(out.alts, SliceAlt{g: g, r: d.r, off: d.off, len: d.len + s.len, cap: d.cap})
				continue
			}
			e := append(append([]Value{}, x.sliceElems(st, d)...), vals...)
			o := x.newObj()
			st.heap = st.heap.set(o, ArrayV{e})
			out.alts = append(out.alts, SliceAlt{g: g, r: Ref{obj: o}, len: len(e), cap: len(e)})
		}
	}
	if len(out.alts) > 4096 {
		unsup("append produces too many alternatives")
	}
	return out
}
