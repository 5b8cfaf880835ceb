package main

// Linear reparametrisation: a variable that the formula mentions only inside
// exclusive-ors can be replaced, together with its fellows, by one fresh
// variable per independent linear form.  The forms of a parity check overlap
// heavily; after the change of basis they are plain variables again.

type reparamRec struct {
	forms [][]*B // forms[k]: free variables whose sum is basis[k]
	basis []*B
}

// reparam rewrites fs; rec reconstructs the original variables from a model.
func (c *Ctx) reparam(fs []*B) ([]*B, *reparamRec) {
	var xors []*B
	seen := map[*B]bool{}
	pinned := map[*B]bool{}
	isFree := map[*B]bool{}
	big := false
	var visit func(f *B)
	visit = func(f *B) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, y := range f.a {
			if y.k == kVar {
				if f.k == kXor {
					isFree[y] = true
				} else {
					pinned[y] = true
				}
				continue
			}
			visit(y)
		}
		switch f.k {
		case kXor:
			xors = append(xors, f)
			if len(f.a) > 3 {
				big = true
			}
		case kCmp:
			for _, t := range f.lin.bt {
				if t.b.k == kVar {
					pinned[t.b] = true
				}
			}
			big = false
		}
	}
	for _, f := range fs {
		if f.k == kVar {
			pinned[f] = true
		}
		if f.k == kCmp {
			return fs, nil
		}
		visit(f)
	}
	for f := range seen {
		if f.k == kCmp {
			return fs, nil
		}
	}
	if !big || len(xors) > 4000 {
		return fs, nil
	}
	// number the free variables
	idx := map[*B]int{}
	var vars []*B
	for _, x := range xors {
		for _, y := range x.a {
			if y.k == kVar && isFree[y] && !pinned[y] {
				if _, ok := idx[y]; !ok {
					idx[y] = len(vars)
					vars = append(vars, y)
				}
			}
		}
	}
	if len(vars) == 0 {
		return fs, nil
	}
	w := (len(vars) + 63) / 64
	type row struct {
		v     []uint64 // reduced form over the free variables
		comb  map[int]bool
		pivot int
	}
	var rows []row
	rec := &reparamRec{}
	m := map[*B]*B{}
	for _, x := range xors {
		v := make([]uint64, w)
		any := false
		var others []*B
		var fv []*B
		for _, y := range x.a {
			if i, ok := idx[y]; ok {
				v[i/64] ^= 1 << uint(i%64)
				any = true
				fv = append(fv, y)
			} else {
				others = append(others, y)
			}
		}
		if !any {
			continue
		}
		comb := map[int]bool{}
		for _, r := range rows {
			if v[r.pivot/64]>>uint(r.pivot%64)&1 == 1 {
				for k := range v {
					v[k] ^= r.v[k]
				}
				for k := range r.comb {
					if comb[k] {
						delete(comb, k)
					} else {
						comb[k] = true
					}
				}
			}
		}
		piv := -1
		for k := range v {
			if v[k] != 0 {
				for b := 0; b < 64; b++ {
					if v[k]>>uint(b)&1 == 1 {
						piv = k*64 + b
						break
					}
				}
				break
			}
		}
		args := append([]*B{}, others...)
		if piv >= 0 {
			k := len(rec.basis)
			y := c.Fresh("lin")
			rec.basis = append(rec.basis, y)
			rec.forms = append(rec.forms, fv)
			comb[k] = true
			rows = append(rows, row{v, comb, piv})
			args = append(args, y)
		} else {
			for k := range rec.basis {
				if comb[k] {
					args = append(args, rec.basis[k])
				}
			}
		}
		m[x] = c.Xor(args...)
	}
	// others may themselves contain rewritten exclusive-ors
	out := make([]*B, len(fs))
	done := map[*B]*B{}
	var rb func(f *B) *B
	rb = func(f *B) *B {
		if r, ok := done[f]; ok {
			return r
		}
		var r *B
		switch f.k {
		case kConst, kVar:
			r = f
		case kNot:
			r = c.Not(rb(f.a[0]))
		case kIte:
			r = c.Ite(rb(f.a[0]), rb(f.a[1]), rb(f.a[2]))
		case kXor:
			g := f
			if t, ok := m[f]; ok {
				g = t
			}
			neg := false
			if g.k == kNot {
				g, neg = g.a[0], true
			}
			if g.k == kXor {
				args := make([]*B, len(g.a))
				for i, y := range g.a {
					if y.k == kXor {
						args[i] = y
					} else {
						args[i] = rb(y)
					}
				}
				r = c.Xor(args...)
			} else if g.k == kVar || g.k == kConst {
				r = g
			} else {
				r = rb(g)
			}
			if neg {
				r = c.Not(r)
			}
		default:
			args := make([]*B, len(f.a))
			for i, y := range f.a {
				args[i] = rb(y)
			}
			r = c.And(args...)
		}
		done[f] = r
		return r
	}
	for i, f := range fs {
		out[i] = rb(f)
	}
	return out, rec
}

// restore solves the linear system for the original variables.
func (rec *reparamRec) restore(as *Assign) {
	type row struct {
		v   map[*B]bool
		rhs bool
	}
	var rows []row
	var pivs []*B
	for k, f := range rec.forms {
		r := row{map[*B]bool{}, as.b[rec.basis[k].name]}
		for _, y := range f {
			r.v[y] = true
		}
		for i, p := range pivs {
			if r.v[p] {
				for y := range rows[i].v {
					if r.v[y] {
						delete(r.v, y)
					} else {
						r.v[y] = true
					}
				}
				r.rhs = r.rhs != rows[i].rhs
			}
		}
		var p *B
		for y := range r.v {
			if p == nil || y.id < p.id {
				p = y
			}
		}
		if p == nil {
			continue
		}
		rows = append(rows, r)
		pivs = append(pivs, p)
	}
	for i := len(rows) - 1; i >= 0; i-- {
		v := rows[i].rhs
		for y := range rows[i].v {
			if y != pivs[i] && as.b[y.name] {
				v = !v
			}
		}
		as.b[pivs[i].name] = v
	}
}
