package main

// GF(2) presolve: conjuncts that are exclusive-ors of variables are removed by
// Gaussian elimination and substituted into the rest.  CDCL search is hopeless
// on the parity equations of the CRC, elimination is immediate.

type subst struct {
	v *B
	e *B
}

func flattenAnd(fs []*B) []*B {
	var out []*B
	seen := map[*B]bool{}
	var rec func(f *B)
	rec = func(f *B) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.k == kAnd {
			for _, y := range f.a {
				rec(y)
			}
			return
		}
		out = append(out, f)
	}
	for _, f := range fs {
		rec(f)
	}
	return out
}

// linearRow returns the variables of an affine constraint f.
func linearRow(f *B) (*B, bool) {
	x := f
	if x.k == kNot {
		x = x.a[0]
	}
	if x.k != kXor {
		return nil, false
	}
	for _, y := range x.a {
		if y.k == kVar {
			return x, true
		}
	}
	return nil, false
}

func (c *Ctx) rebuild(f *B, m map[*B]*B) *B {
	if r, ok := m[f]; ok {
		return r
	}
	var r *B
	switch f.k {
	case kConst, kVar, kCmp:
		r = f
	case kNot:
		r = c.Not(c.rebuild(f.a[0], m))
	case kIte:
		g := c.rebuild(f.a[0], m)
		if g == c.T {
			r = c.rebuild(f.a[1], m)
		} else if g == c.F {
			r = c.rebuild(f.a[2], m)
		} else {
			r = c.Ite(g, c.rebuild(f.a[1], m), c.rebuild(f.a[2], m))
		}
	default:
		args := make([]*B, len(f.a))
		same := true
		for i, y := range f.a {
			args[i] = c.rebuild(y, m)
			if args[i] != y {
				same = false
			}
			if f.k == kAnd && args[i] == c.F {
				m[f] = c.F
				return c.F
			}
		}
		switch {
		case same:
			r = f
		case f.k == kAnd:
			r = c.And(args...)
		default:
			r = c.Xor(args...)
		}
	}
	m[f] = r
	return r
}

func (c *Ctx) presolve(fs []*B) ([]*B, []subst) {
	cur := flattenAnd(fs)
	var subs []subst
	for round := 0; round < 8; round++ {
		var rows []*B
		var rest []*B
		hasReal := false
		for _, f := range cur {
			if f == c.F {
				return []*B{c.F}, subs
			}
			if f == c.T {
				continue
			}
			if _, ok := linearRow(f); ok {
				rows = append(rows, f)
			} else {
				rest = append(rest, f)
			}
		}
		_ = hasReal
		if len(rows) == 0 {
			return cur, subs
		}
		local := map[*B]*B{}
		progressed := false
		for i := 0; i < len(rows); i++ {
			// apply the substitutions found so far (they are kept reduced)
			f := rows[i]
			if len(local) > 0 {
				f = c.substXor(f, local)
			}
			if f == c.F {
				return []*B{c.F}, subs
			}
			if f == c.T {
				continue
			}
			x, ok := linearRow(f)
			if !ok {
				rest = append(rest, f)
				continue
			}
			// pivot: a variable that occurs only as a direct summand
			var piv *B
			for _, y := range x.a {
				if y.k == kVar && !c.occursInside(y, x) {
					piv = y
					break
				}
			}
			if piv == nil {
				rest = append(rest, f)
				continue
			}
			// f true: xor(args) = 1 (or 0 if negated) => piv = xor(others) ^ 1 (or ^0)
			e := c.Xor(x, piv)
			if f.k == kXor {
				e = c.Not(e)
			}
			one := map[*B]*B{piv: e}
			for v, ex := range local {
				local[v] = c.substXor(ex, one)
			}
			local[piv] = e
			subs = append(subs, subst{piv, e})
			progressed = true
		}
		if !progressed {
			return append(rest, []*B{}...), subs
		}
		m := map[*B]*B{}
		for v, e := range local {
			m[v] = e
		}
		var next []*B
		for _, f := range rest {
			g := c.rebuild(f, m)
			if g == c.F {
				return []*B{c.F}, subs
			}
			next = append(next, g)
		}
		cur = flattenAnd(next)
	}
	return cur, subs
}

// occursInside reports whether v occurs below a non-variable argument of x.
func (c *Ctx) occursInside(v, x *B) bool {
	for _, y := range x.a {
		if y.k != kVar {
			return true // conservatively
		}
	}
	return false
}

// substXor substitutes direct summands of an exclusive-or.
func (c *Ctx) substXor(f *B, m map[*B]*B) *B {
	neg := false
	x := f
	if x.k == kNot {
		neg = true
		x = x.a[0]
	}
	var args []*B
	switch x.k {
	case kXor:
		for _, y := range x.a {
			if e, ok := m[y]; ok {
				args = append(args, e)
			} else {
				args = append(args, y)
			}
		}
	default:
		if e, ok := m[x]; ok {
			args = []*B{e}
		} else {
			args = []*B{x}
		}
	}
	r := c.Xor(args...)
	if neg {
		return c.Not(r)
	}
	return r
}
