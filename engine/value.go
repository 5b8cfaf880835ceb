package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Value is an immutable symbolic value.
type Value interface{}

// IntV: any integer or boolean (len 1) value; nil pointers etc. excluded.
type IntV struct{ b BV }

// FloatV: real term plus a "not a finite number" flag.
type FloatV struct {
	l    *Lin
	spec *B // value is NaN or an infinity
	size int
}

type StructV struct{ f []Value }
type ArrayV struct{ e []Value }
type TupleV struct{ e []Value }

// Sel is one step of an address path: a constant field/element, or a symbolic element.
type Sel struct {
	i   int
	sym BV // non-nil: symbolic element index (assumed in range)
	n   int
}

// Ref is a concrete address.
type Ref struct {
	obj  int // 0 = nil
	path []Sel
}

type PtrAlt struct {
	g *B
	r Ref
}
type PtrV struct{ alts []PtrAlt }

type SliceAlt struct {
	g             *B
	r             Ref // array holding the elements (obj 0 = nil slice)
	off, len, cap int
}
type SliceV struct{ alts []SliceAlt }

type IfaceAlt struct {
	g *B
	t types.Type // nil = nil interface
	v Value
}
type IfaceV struct{ alts []IfaceAlt }

type FuncAlt struct {
	g    *B
	fn   *ssa.Function // nil = nil func
	bind []Value
	nat  string // name of a natively modelled function
}
type FuncV struct{ alts []FuncAlt }

// MapV refers to a map object.
type MapAlt struct {
	g   *B
	obj int // 0 = nil map
}
type MapV struct{ alts []MapAlt }

// MapObj is the content of a map object: a list of entries with distinct keys
// established by guarded updates, applied in order.
type MapUpd struct {
	g   *B
	key Value
	val Value // nil = delete
}
type MapObj struct {
	kt, vt types.Type
	upd    []MapUpd
}

// iterator over a map or string
type IterV struct {
	keys []Value
	vals []Value
	gs   []*B
	pos  int // heap object holding the position
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---------------------------------------------------------------- zero values

func intWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func floatSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Float32:
		return 32
	case types.Float64, types.UntypedFloat:
		return 64
	}
	return 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) zero(t types.Type) Value {
	c := x.c
	if w, _, ok := intWidth(t); ok {
		return IntV{c.Const(0, w)}
	}
	if s := floatSize(t); s != 0 {
		return FloatV{c.LConst(new(big.Rat)), c.F, s}
	}
	if isString(t) {
		return litStr("")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return PtrV{[]PtrAlt{{c.T, Ref{}}}}
		}
		if u.Kind() == types.UntypedNil {
			return PtrV{[]PtrAlt{{c.T, Ref{}}}}
		}
	case *types.Pointer:
		return PtrV{[]PtrAlt{{c.T, Ref{}}}}
	case *types.Slice:
		return SliceV{[]SliceAlt{{g: c.T}}}
	case *types.Interface:
		return IfaceV{[]IfaceAlt{{g: c.T}}}
	case *types.Signature:
		return FuncV{[]FuncAlt{{g: c.T}}}
	case *types.Map:
		return MapV{[]MapAlt{{g: c.T}}}
	case *types.Struct:
		s := StructV{make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<16 {
			unsup("array of %d elements", u.Len())
		}
		a := ArrayV{make([]Value, u.Len())}
		var z Value
		for i := range a.e {
			if i == 0 {
				z = x.zero(u.Elem())
			}
			a.e[i] = z
		}
		return a
	case *types.Chan:
		return PtrV{[]PtrAlt{{c.T, Ref{}}}}
	case *types.Tuple:
		tv := TupleV{make([]Value, u.Len())}
		for i := range tv.e {
			tv.e[i] = x.zero(u.At(i).Type())
		}
		return tv
	}
	unsup("zero value of %s", t)
	return nil
}

// ---------------------------------------------------------------- merging

func sameValue(a, b Value) bool {
	switch p := a.(type) {
	case IntV:
		q, ok := b.(IntV)
		if !ok || len(p.b) != len(q.b) {
			return false
		}
		for i := range p.b {
			if p.b[i] != q.b[i] {
				return false
			}
		}
		return true
	case FloatV:
		q, ok := b.(FloatV)
		return ok && p.l == q.l && p.spec == q.spec && p.size == q.size
	case StructV:
		q, ok := b.(StructV)
		if !ok || len(p.f) != len(q.f) {
			return false
		}
		if len(p.f) > 0 && &p.f[0] == &q.f[0] {
			return true
		}
		for i := range p.f {
			if !sameValue(p.f[i], q.f[i]) {
				return false
			}
		}
		return true
	case ArrayV:
		q, ok := b.(ArrayV)
		if !ok || len(p.e) != len(q.e) {
			return false
		}
		if len(p.e) > 0 && &p.e[0] == &q.e[0] {
			return true
		}
		for i := range p.e {
			if !sameValue(p.e[i], q.e[i]) {
				return false
			}
		}
		return true
	case TupleV:
		q, ok := b.(TupleV)
		if !ok || len(p.e) != len(q.e) {
			return false
		}
		for i := range p.e {
			if !sameValue(p.e[i], q.e[i]) {
				return false
			}
		}
		return true
	case PtrV:
		q, ok := b.(PtrV)
		if !ok || len(p.alts) != len(q.alts) {
			return false
		}
		for i := range p.alts {
			if p.alts[i].g != q.alts[i].g || !sameRef(p.alts[i].r, q.alts[i].r) {
				return false
			}
		}
		return true
	case SliceV:
		q, ok := b.(SliceV)
		if !ok || len(p.alts) != len(q.alts) {
			return false
		}
		for i := range p.alts {
			u, v := p.alts[i], q.alts[i]
			if u.g != v.g || !sameRef(u.r, v.r) || u.off != v.off || u.len != v.len || u.cap != v.cap {
				return false
			}
		}
		return true
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok || len(p.alts) != len(q.alts) {
			return false
		}
		for i := range p.alts {
			u, v := p.alts[i], q.alts[i]
			if u.g != v.g || (u.t == nil) != (v.t == nil) {
				return false
			}
			if u.t != nil && (!types.Identical(u.t, v.t) || !sameValue(u.v, v.v)) {
				return false
			}
		}
		return true
	case FuncV:
		q, ok := b.(FuncV)
		if !ok || len(p.alts) != len(q.alts) {
			return false
		}
		for i := range p.alts {
			u, v := p.alts[i], q.alts[i]
			if u.g != v.g || u.fn != v.fn || u.nat != v.nat || len(u.bind) != len(v.bind) {
				return false
			}
			for k := range u.bind {
				if !sameValue(u.bind[k], v.bind[k]) {
					return false
				}
			}
		}
		return true
	case MapV:
		q, ok := b.(MapV)
		if !ok || len(p.alts) != len(q.alts) {
			return false
		}
		for i := range p.alts {
			if p.alts[i] != q.alts[i] {
				return false
			}
		}
		return true
	case *MapObj:
		return a == b
	case *Rope:
		q, ok := b.(*Rope)
		return ok && (p == q || p.key() == q.key())
	case *IterV:
		return a == b
	case nil:
		return b == nil
	}
	return false
}

func sameRef(a, b Ref) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i].sym != nil || b.path[i].sym != nil {
			if !sameValue(IntV{a.path[i].sym}, IntV{b.path[i].sym}) {
				return false
			}
			continue
		}
		if a.path[i].i != b.path[i].i {
			return false
		}
	}
	return true
}

// merge returns g ? a : b.
func (x *Exec) merge(g *B, a, b Value) Value {
	c := x.c
	if g == c.T {
		return a
	}
	if g == c.F {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if sameValue(a, b) {
		return a
	}
	ng := c.Not(g)
	switch p := a.(type) {
	case IntV:
		return IntV{c.BVIte(g, p.b, b.(IntV).b)}
	case FloatV:
		q := b.(FloatV)
		return FloatV{c.LIte(g, p.l, q.l), c.Ite(g, p.spec, q.spec), p.size}
	case StructV:
		q := b.(StructV)
		r := StructV{make([]Value, len(p.f))}
		for i := range p.f {
			r.f[i] = x.merge(g, p.f[i], q.f[i])
		}
		return r
	case ArrayV:
		q := b.(ArrayV)
		if len(p.e) != len(q.e) {
			unsup("merging arrays of different length")
		}
		r := ArrayV{make([]Value, len(p.e))}
		for i := range p.e {
			r.e[i] = x.merge(g, p.e[i], q.e[i])
		}
		return r
	case TupleV:
		q := b.(TupleV)
		r := TupleV{make([]Value, len(p.e))}
		for i := range p.e {
			r.e[i] = x.merge(g, p.e[i], q.e[i])
		}
		return r
	case PtrV:
		var out []PtrAlt
		add := func(gg *B, r Ref) {
			if gg == c.F {
				return
			}
			for i := range out {
				if sameRef(out[i].r, r) {
					out[i].g = c.Or(out[i].g, gg)
					return
				}
			}
			out = append(out, PtrAlt{gg, r})
		}
		for _, t := range p.alts {
			add(c.And(g, t.g), t.r)
		}
		for _, t := range b.(PtrV).alts {
			add(c.And(ng, t.g), t.r)
		}
		return PtrV{out}
	case SliceV:
		var out []SliceAlt
		add := func(gg *B, s SliceAlt) {
			if gg == c.F {
				return
			}
			for i := range out {
				o := out[i]
				if sameRef(o.r, s.r) && o.off == s.off && o.len == s.len && o.cap == s.cap {
					out[i].g = c.Or(o.g, gg)
					return
				}
			}
			s.g = gg
			out = append(out, s)
		}
		for _, t := range p.alts {
			add(c.And(g, t.g), t)
		}
		for _, t := range b.(SliceV).alts {
			add(c.And(ng, t.g), t)
		}
		return SliceV{out}
	case IfaceV:
		var out []IfaceAlt
		add := func(gg, sel *B, s IfaceAlt) {
			if gg == c.F {
				return
			}
			for i := range out {
				o := out[i]
				if s.t == nil && o.t == nil {
					out[i].g = c.Or(o.g, gg)
					return
				}
				if s.t != nil && o.t != nil && types.Identical(s.t, o.t) {
					out[i].v = x.merge(sel, s.v, o.v)
					out[i].g = c.Or(o.g, gg)
					return
				}
			}
			s.g = gg
			out = append(out, s)
		}
		for _, t := range p.alts {
			add(c.And(g, t.g), g, t)
		}
		for _, t := range b.(IfaceV).alts {
			add(c.And(ng, t.g), ng, t)
		}
		return IfaceV{out}
	case FuncV:
		var out []FuncAlt
		for _, t := range p.alts {
			if gg := c.And(g, t.g); gg != c.F {
				t.g = gg
				out = append(out, t)
			}
		}
		for _, t := range b.(FuncV).alts {
			if gg := c.And(ng, t.g); gg != c.F {
				t.g = gg
				out = append(out, t)
			}
		}
		return FuncV{out}
	case MapV:
		var out []MapAlt
		add := func(gg *B, o int) {
			if gg == c.F {
				return
			}
			for i := range out {
				if out[i].obj == o {
					out[i].g = c.Or(out[i].g, gg)
					return
				}
			}
			out = append(out, MapAlt{gg, o})
		}
		for _, t := range p.alts {
			add(c.And(g, t.g), t.obj)
		}
		for _, t := range b.(MapV).alts {
			add(c.And(ng, t.g), t.obj)
		}
		return MapV{out}
	case *MapObj:
		q := b.(*MapObj)
		n := 0
		for n < len(p.upd) && n < len(q.upd) && p.upd[n].g == q.upd[n].g && sameValue(p.upd[n].key, q.upd[n].key) && sameValue(p.upd[n].val, q.upd[n].val) {
			n++
		}
		r := &MapObj{p.kt, p.vt, append([]MapUpd{}, p.upd[:n]...)}
		for _, u := range p.upd[n:] {
			u.g = c.And(g, u.g)
			r.upd = append(r.upd, u)
		}
		for _, u := range q.upd[n:] {
			u.g = c.And(ng, u.g)
			r.upd = append(r.upd, u)
		}
		return r
	case *Rope:
		return x.mergeRope(g, p, b.(*Rope))
	}
	unsup("merge of %T and %T", a, b)
	return nil
}

// ---------------------------------------------------------------- heap

// Heap is a persistent chain of write layers.
type Heap struct {
	parent *Heap
	w      map[int]Value
	depth  int
	frozen bool
}

func newHeap() *Heap { return &Heap{w: map[int]Value{}} }

func (h *Heap) get(o int) (Value, bool) {
	for p := h; p != nil; p = p.parent {
		if v, ok := p.w[o]; ok {
			return v, true
		}
	}
	return nil, false
}

func (h *Heap) fork() *Heap {
	h.frozen = true
	if len(h.w) == 0 && h.parent != nil {
		return &Heap{parent: h.parent, w: map[int]Value{}, depth: h.parent.depth + 1}
	}
	return &Heap{parent: h, w: map[int]Value{}, depth: h.depth + 1}
}

func (h *Heap) set(o int, v Value) *Heap {
	if h.frozen {
		h = h.fork()
	}
	h.w[o] = v
	return h
}

func (x *Exec) mergeHeap(g *B, a, b *Heap) *Heap {
	if a == b {
		return a
	}
	p, q := a, b
	var keys = map[int]bool{}
	for p != q {
		if p != nil && (q == nil || p.depth >= q.depth) {
			for k := range p.w {
				keys[k] = true
			}
			p = p.parent
		} else {
			for k := range q.w {
				keys[k] = true
			}
			q = q.parent
		}
	}
	r := &Heap{parent: p, w: map[int]Value{}}
	if p != nil {
		r.depth = p.depth + 1
	}
	for k := range keys {
		va, oka := a.get(k)
		vb, okb := b.get(k)
		switch {
		case !oka:
			r.w[k] = vb
		case !okb:
			r.w[k] = va
		default:
			r.w[k] = x.merge(g, va, vb)
		}
	}
	if r.depth > 200 {
		f := &Heap{w: map[int]Value{}}
		for p := r; p != nil; p = p.parent {
			for k, v := range p.w {
				if _, ok := f.w[k]; !ok {
					f.w[k] = v
				}
			}
		}
		return f
	}
	return r
}

// ---------------------------------------------------------------- paths

func (x *Exec) getPath(v Value, path []Sel) Value {
	for _, s := range path {
		switch p := v.(type) {
		case StructV:
			v = p.f[s.i]
		case ArrayV:
			if s.sym == nil {
				if s.i >= len(p.e) {
					unsup("element %d of array of %d", s.i, len(p.e))
				}
				v = p.e[s.i]
			} else {
				v = x.selectElem(p.e[s.i:s.i+s.n], s.sym)
			}
		default:
			unsup("address path through %T", v)
		}
	}
	return v
}

// selectElem picks es[idx] for a symbolic idx.
func (x *Exec) selectElem(es []Value, idx BV) Value {
	c := x.c
	if len(es) == 1 {
		return es[0]
	}
	if _, ok := es[0].(IntV); ok {
		bs := make([]BV, len(es))
		for i := range es {
			bs[i] = es[i].(IntV).b
		}
		return IntV{c.Select(bs, idx)}
	}
	var rec func(es []Value, bit int) Value
	rec = func(es []Value, bit int) Value {
		if len(es) == 1 {
			return es[0]
		}
		h := 1 << uint(bit)
		if h >= len(es) {
			return rec(es, bit-1)
		}
		return x.merge(idx[bit], rec(es[h:], bit-1), rec(es[:h], bit-1))
	}
	nb := 0
	for 1<<uint(nb+1) < len(es) {
		nb++
	}
	return rec(es, nb)
}

func (x *Exec) setPath(v Value, path []Sel, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch p := v.(type) {
	case StructV:
		f := make([]Value, len(p.f))
		copy(f, p.f)
		f[s.i] = x.setPath(p.f[s.i], path[1:], nv)
		return StructV{f}
	case ArrayV:
		e := make([]Value, len(p.e))
		copy(e, p.e)
		if s.sym == nil {
			e[s.i] = x.setPath(p.e[s.i], path[1:], nv)
		} else {
			for k := 0; k < s.n; k++ {
				g := x.c.BVEq(s.sym, x.c.Const(uint64(k), len(s.sym)))
				if g == x.c.F {
					continue
				}
				e[s.i+k] = x.merge(g, x.setPath(p.e[s.i+k], path[1:], nv), p.e[s.i+k])
			}
		}
		return ArrayV{e}
	}
	unsup("store path through %T", v)
	return nil
}
