package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type handler func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool)

// packages whose initialisers are executed (besides the code under test and
// the harness); everything else starts uninitialised and may not be read.
func initAllowed(p string) bool {
	switch p {
	case "strconv", "strings", "math", "math/bits", "bytes", "errors", "unicode/utf8", "encoding/binary", "encoding/hex", "slices", "sort", "cmp", "maps":
		return true
	}
	return false
}

const symPath = "vharness/sym"

func (x *Exec) intrinsic(fn *ssa.Function) (handler, bool) {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	pk := ""
	if o.Pkg != nil {
		pk = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		pk = o.Object().Pkg().Path()
	}
	if o.Name() == "init" && o.Signature.Recv() == nil && o.Synthetic != "" {
		if strings.HasPrefix(pk, x.mod) || strings.HasPrefix(pk, x.harness) && pk != symPath {
			return nil, false
		}
		if initAllowed(pk) {
			return stdInit, true
		}
		return nop, true
	}
	if pk == "" || strings.HasPrefix(pk, x.mod) {
		return nil, false
	}
	name := o.Name()
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			name = n.Obj().Name() + "." + name
		}
	}
	if h, ok := natives[pk+"."+name]; ok {
		return h, true
	}
	if pk == "math" {
		if h, ok := mathHandler(name); ok {
			return h, true
		}
	}
	if strings.HasPrefix(pk, x.harness) {
		return nil, false
	}
	return nil, false
}

func nop(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
	return nil, true
}

// stdInit runs a standard-library initialiser; a construct outside the model
// leaves the package uninitialised (its globals may then not be read).
func stdInit(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (v Value, ok bool) {
	pc, heap := st.pc, st.heap.fork()
	d, nf := x.depth, len(x.frames)
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupported); !is {
				panic(e)
			}
			st.pc, st.heap = pc, heap
			x.depth, x.frames = d, x.frames[:nf]
			x.badInit[fn.Pkg.Pkg.Path()] = true
			v, ok = nil, true
		}
	}()
	_, p2, h2 := x.callFn(fn, args, nil, st.pc, st.heap)
	if p2 == nil {
		unsup("init does not return")
	}
	st.pc, st.heap = p2, h2
	return nil, true
}

func (x *Exec) constStr(v Value) string {
	r, ok := v.(*Rope)
	if !ok {
		unsup("string expected, got %T", v)
	}
	s, ok := r.konst()
	if !ok {
		unsup("constant string expected")
	}
	return s
}

func (x *Exec) constInt(v Value) int {
	n, ok := v.(IntV).b.constSigned()
	if !ok {
		unsup("constant integer expected")
	}
	return int(n)
}

func (x *Exec) varBits(name string, w int) BV {
	r := make(BV, w)
	for i := range r {
		r[i] = x.c.Var(fmt.Sprintf("%s.%d", name, i))
	}
	if x.inputs[name] == 0 {
		x.inputOrder = append(x.inputOrder, name)
	}
	x.inputs[name] = w
	return r
}

func (x *Exec) addObl(st *State, kind, label, known string, bad *B, fr *frame, cc *ssa.CallCommon) {
	cond := x.c.And(st.pc.full, bad)
	x.nAsserts++
	x.labels[label]++
	if cond == x.c.F {
		x.trivial++
		return
	}
	x.obls = append(x.obls, Obligation{Kind: kind, Label: label, Pos: x.pos(cc.Pos()), Cond: cond, Known: known, Run: x.run})
}

var natives map[string]handler

func init() {
	natives = map[string]handler{
		symPath + ".Bytes": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			name, n := x.constStr(args[0]), x.constInt(args[1])
			a := ArrayV{}
			for i := 0; i < n; i++ {
				a.e = append(a.e, IntV{x.varBits(fmt.Sprintf("%s[%d]", name, i), 8)})
			}
			o := x.newObj()
			st.heap = st.heap.set(o, a)
			return SliceV{[]SliceAlt{{g: x.c.T, r: Ref{obj: o}, len: n, cap: n}}}, true
		},
		symPath + ".Labelled": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			r, g := x.labelled(args[0].(*Rope), x.constStr(args[1]))
			return TupleV{[]Value{x.mergeRope(g, r, litStr("")), x.boolV(g)}}, true
		},
		symPath + ".Uint": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			name, n := x.constStr(args[0]), x.constInt(args[1])
			return IntV{x.c.Resize(x.varBits(name, n), 64, false)}, true
		},
		symPath + ".Bool": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return IntV{x.varBits(x.constStr(args[0]), 1)}, true
		},
		symPath + ".Real": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			name := x.constStr(args[0])
			lo, hi := args[1].(FloatV).l, args[2].(FloatV).l
			if !lo.isConst() || !hi.isConst() {
				unsup("bounds of a symbolic real must be constant")
			}
			x.realIn[name] = true
			return FloatV{x.c.RVar(name, lo.k, hi.k), x.c.F, 64}, true
		},
		symPath + ".Assume": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			st.pc = x.pcAdd(st.pc, args[0].(IntV).b[0])
			return nil, st.pc.full != x.c.F
		},
		symPath + ".Assert": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			x.addObl(st, "assert", x.constStr(args[1]), "", x.c.Not(args[0].(IntV).b[0]), fr, cc)
			return nil, true
		},
		// Except(known, region, cond, label)
		symPath + ".Except": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			known := x.constStr(args[0])
			reg, bad := args[1].(IntV).b[0], x.c.Not(args[2].(IntV).b[0])
			label := x.constStr(args[3])
			x.addObl(st, "assert", label, "", x.c.And(bad, x.c.Not(reg)), fr, cc)
			x.addObl(st, "assert", label, known, x.c.And(bad, reg), fr, cc)
			return nil, true
		},
		symPath + ".Reach": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			x.reaches = append(x.reaches, Reach{x.constStr(args[0]), st.pc.full})
			return nil, true
		},
		symPath + ".ObserveInt": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			x.observes = append(x.observes, Observe{x.constStr(args[0]), st.pc.full, args[1], true})
			return nil, true
		},
		symPath + ".ObserveFloat": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			x.observes = append(x.observes, Observe{x.constStr(args[0]), st.pc.full, args[1], true})
			return nil, true
		},
		symPath + ".ObserveString": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			x.observes = append(x.observes, Observe{x.constStr(args[0]), st.pc.full, args[1], true})
			return nil, true
		},
		// Eq(got, want int64, label)
		symPath + ".Eq": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			label := x.constStr(args[2])
			x.observes = append(x.observes, Observe{label, st.pc.full, args[0], true})
			x.addObl(st, "assert", label, "", x.c.Not(x.c.BVEq(args[0].(IntV).b, args[1].(IntV).b)), fr, cc)
			return nil, true
		},
		// Near(got, want, tol float64, label)
		symPath + ".Near": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			label := x.constStr(args[3])
			x.observes = append(x.observes, Observe{label, st.pc.full, args[0], true})
			x.addObl(st, "assert", label, "", x.c.Not(x.near(args[0].(FloatV), args[1].(FloatV), args[2].(FloatV))), fr, cc)
			return nil, true
		},
		symPath + ".Close": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(x.near(args[0].(FloatV), args[1].(FloatV), args[2].(FloatV))), true
		},
		symPath + ".Contains": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(x.ropeContains(args[0].(*Rope), x.constStr(args[1]))), true
		},
		symPath + ".Symbolic": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(x.c.T), true
		},
		symPath + ".And": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(x.c.And(args[0].(IntV).b[0], args[1].(IntV).b[0])), true
		},
		symPath + ".Or": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(x.c.Or(args[0].(IntV).b[0], args[1].(IntV).b[0])), true
		},
		symPath + ".Pick": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			l := args[0].(FloatV).l
			lo, hi := x.constInt(args[1]), x.constInt(args[2])
			var conds []*B
			for k := lo; k <= hi; k++ {
				conds = append(conds, x.c.Cmp(cmpEQ, x.c.LSub(l, x.c.LConst(rat(int64(k))))))
			}
			k := x.decide(st, conds)
			if k < 0 {
				return nil, false
			}
			return IntV{x.c.ConstBig(big.NewInt(int64(lo+k)), 64)}, true
		},
		symPath + ".Never": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			g := x.simp(st.pc, args[0].(IntV).b[0])
			return x.boolV(x.c.Bool(g == x.c.F || g != x.c.T && !x.feasible(x.pcAdd(st.pc, g)))), true
		},
		symPath + ".Paths": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			x.paths = true
			x.solver.Relax, x.c.pathMode = true, true
			return nil, true
		},
		symPath + ".Floors": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			x.floors = true
			return nil, true
		},
		symPath + ".Thorough": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(x.c.Bool(x.thorough)), true
		},
		// Split(v, lo, hi): v re-expressed as a choice among constants (engine hint; identity)
		symPath + ".Bound": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return nil, true
		},

		"fmt.Sprintf": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			r, _ := x.sprintf(fr, st, args[0], args[1], cc)
			return r, true
		},
		"fmt.Errorf": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			r, _ := x.sprintf(fr, st, args[0], args[1], cc)
			return x.mkError(st, r), true
		},
		"errors.New": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.mkError(st, args[0].(*Rope)), true
		},
		"fmt.Sprint": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.sprint(fr, st, args[0], false, cc), true
		},
		"fmt.Sprintln": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return concatRope(x.sprint(fr, st, args[0], true, cc), litStr("\n")), true
		},
		"fmt.Fprintf": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			r, _ := x.sprintf(fr, st, args[1], args[2], cc)
			return x.fprint(st, args[0], r)
		},
		"fmt.Fprint": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.fprint(st, args[0], x.sprint(fr, st, args[1], false, cc))
		},
		"fmt.Fprintln": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.fprint(st, args[0], concatRope(x.sprint(fr, st, args[1], true, cc), litStr("\n")))
		},
		"fmt.Printf":  stdoutNop,
		"fmt.Println": stdoutNop,
		"fmt.Print":   stdoutNop,

		"strings.Contains": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(x.strPred(args[0].(*Rope), args[1].(*Rope), strings.Contains)), true
		},
		"strings.ContainsAny": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			var ps []*B
			for _, r := range x.constStr(args[1]) {
				ps = append(ps, x.strPred(args[0].(*Rope), litStr(string(r)), strings.Contains))
			}
			return x.boolV(x.c.OrAll(ps)), true
		},
		"strings.ContainsRune": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(x.strPred(args[0].(*Rope), litStr(string(rune(x.constInt(args[1])))), strings.Contains)), true
		},
		"strings.Index": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.strFind(args[0].(*Rope), []string{x.constStr(args[1])}, false), true
		},
		"strings.LastIndex": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.strFind(args[0].(*Rope), []string{x.constStr(args[1])}, true), true
		},
		"strings.IndexByte": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.strFind(args[0].(*Rope), []string{string([]byte{byte(x.constInt(args[1]))})}, false), true
		},
		"strings.IndexRune": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.strFind(args[0].(*Rope), []string{string(rune(x.constInt(args[1])))}, false), true
		},
		"strings.IndexAny": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			var cs []string
			for _, r := range x.constStr(args[1]) {
				cs = append(cs, string(r))
			}
			return x.strFind(args[0].(*Rope), cs, false), true
		},
		"strings.Count": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			sub := x.constStr(args[1])
			bs, ok := args[0].(*Rope).bytes(x.c)
			if !ok || len(sub) != 1 {
				unsup("strings.Count of a complex string")
			}
			n := x.c.Const(0, 64)
			for _, b := range bs {
				n = x.c.BVAdd(n, x.c.BVIte(x.c.BVEq(b, x.c.Const(uint64(sub[0]), 8)), x.c.Const(1, 64), x.c.Const(0, 64)))
			}
			return IntV{n}, true
		},
		"strings.HasPrefix": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(x.strPred(args[0].(*Rope), args[1].(*Rope), strings.HasPrefix)), true
		},
		"strings.HasSuffix": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(x.strPred(args[0].(*Rope), args[1].(*Rope), strings.HasSuffix)), true
		},
		"strings.ToUpper":   strMap(strings.ToUpper),
		"strings.ToLower":   strMap(strings.ToLower),
		"strings.TrimSpace": strMap(strings.TrimSpace),
		"strings.Title":     strMap(strings.Title),
		"strings.Repeat": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			n := x.constInt(args[1])
			var rs []*Rope
			for i := 0; i < n; i++ {
				rs = append(rs, args[0].(*Rope))
			}
			return concatRope(rs...), true
		},
		"strings.Join": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			sv := args[0].(SliceV)
			sep := args[1].(*Rope)
			var res *Rope
			for k := len(sv.alts) - 1; k >= 0; k-- {
				g := x.simp(st.pc, sv.alts[k].g)
				if g == x.c.F {
					continue
				}
				var rs []*Rope
				for i, e := range x.sliceElems(st, sv.alts[k]) {
					if i > 0 {
						rs = append(rs, sep)
					}
					rs = append(rs, e.(*Rope))
				}
				r := concatRope(rs...)
				if res == nil {
					res = r
				} else {
					res = x.mergeRope(g, r, res)
				}
			}
			return res, true
		},
		"strings.Split": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.split(st, args[0].(*Rope), x.constStr(args[1])), true
		},
		"strings.ReplaceAll": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			a, b := x.constStr(args[1]), x.constStr(args[2])
			return x.replaceAll(args[0].(*Rope), a, b), true
		},
		"strings.Replace": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			a, b := x.constStr(args[1]), x.constStr(args[2])
			if n := x.constInt(args[3]); n >= 0 {
				r, ok := x.mapRope(args[0].(*Rope), func(s string) *Rope { return litStr(strings.Replace(s, a, b, n)) })
				if !ok {
					unsup("strings.Replace with count on symbolic string")
				}
				return r, true
			}
			return x.replaceAll(args[0].(*Rope), a, b), true
		},
		"strings.Trim":       strTrim(strings.Trim),
		"strings.TrimRight":  strTrim(strings.TrimRight),
		"strings.TrimLeft":   strTrim(strings.TrimLeft),
		"strings.TrimSuffix": strTrim(strings.TrimSuffix),
		"strings.TrimPrefix": strTrim(strings.TrimPrefix),
		"strings.EqualFold": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(x.strPred(args[0].(*Rope), args[1].(*Rope), strings.EqualFold)), true
		},
		"strconv.Itoa": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.fmtOne(fr, st, "%d", 'd', args[0], types.Typ[types.Int], cc), true
		},
		"strconv.FormatInt": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.fmtBase(fr, st, args, types.Typ[types.Int64], cc), true
		},
		"strconv.FormatUint": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.fmtBase(fr, st, args, types.Typ[types.Uint64], cc), true
		},
		"strconv.FormatBool": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.mergeRope(args[0].(IntV).b[0], litStr("true"), litStr("false")), true
		},
		"strconv.FormatFloat": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			f := args[0].(FloatV)
			a, b, s := x.constInt(args[1]), x.constInt(args[2]), x.constInt(args[3])
			if f.l.isConst() && f.spec == x.c.F {
				v, _ := f.l.k.Float64()
				return litStr(strconv.FormatFloat(v, byte(a), b, s)), true
			}
			if r := x.formatFloat(f, byte(a), b, s); r != nil {
				return r, true
			}
			return &Rope{segs: []Seg{{fm: &FmtSeg{fmt.Sprintf("ff%c%d/%d", a, b, s), args[0], types.Typ[types.Float64]}}}}, true
		},
		"strconv.Quote":               strMap(strconv.Quote),
		"strings.Builder.WriteString": sbWrite, "strings.Builder.WriteByte": sbWrite, "strings.Builder.WriteRune": sbWrite, "strings.Builder.Write": sbWrite,
		"bytes.Buffer.WriteString": sbWrite, "bytes.Buffer.WriteByte": sbWrite, "bytes.Buffer.WriteRune": sbWrite, "bytes.Buffer.Write": sbWrite,
		"strings.Builder.String": sbString, "bytes.Buffer.String": sbString,
		"strings.Builder.Grow": nop, "bytes.Buffer.Grow": nop,
		"strings.Builder.Len": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return IntV{x.ropeLen(x.sbGet(st, args[0]))}, true
		},
		"strings.Builder.Reset": func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			x.sbSet(st, args[0], &Rope{})
			return nil, true
		},
	}
}

func stdoutNop(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
	return TupleV{[]Value{IntV{x.c.Const(0, 64)}, IfaceV{[]IfaceAlt{{g: x.c.T}}}}}, true
}

func (x *Exec) fprint(st *State, w Value, r *Rope) (Value, bool) {
	iv := w.(IfaceV)
	if len(iv.alts) != 1 || iv.alts[0].t == nil {
		unsup("Fprint to unknown writer")
	}
	t := iv.alts[0].t.String()
	if t != "*strings.Builder" && t != "*bytes.Buffer" {
		if t == "*os.File" {
			return stdoutNop(x, nil, st, nil, nil, nil)
		}
		unsup("Fprint to %s", t)
	}
	x.sbSet(st, iv.alts[0].v, concatRope(x.sbGet(st, iv.alts[0].v), r))
	return stdoutNop(x, nil, st, nil, nil, nil)
}

// string builders keep their text in a rope stored in place of the struct.
func (x *Exec) sbRef(v Value) Ref {
	p, ok := v.(PtrV)
	if !ok || len(p.alts) != 1 || p.alts[0].r.obj == 0 {
		unsup("string builder behind several pointers")
	}
	return p.alts[0].r
}

func (x *Exec) sbGet(st *State, v Value) *Rope {
	w := x.load(st, st.heap, x.sbRef(v), nil)
	if r, ok := w.(*Rope); ok {
		return r
	}
	return &Rope{}
}

func (x *Exec) sbSet(st *State, v Value, r *Rope) { x.store(st, x.sbRef(v), r) }

func sbString(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
	return x.sbGet(st, args[0]), true
}

func sbWrite(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
	var r *Rope
	switch p := args[1].(type) {
	case *Rope:
		r = p
	case IntV:
		if len(p.b) == 8 {
			r = byteRope(p.b)
		} else {
			r = x.convert(st, p, types.Typ[types.Rune], types.Typ[types.String]).(*Rope)
		}
	case SliceV:
		r = x.convert(st, p, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String]).(*Rope)
	}
	n := x.ropeLen(r)
	x.sbSet(st, args[0], concatRope(x.sbGet(st, args[0]), r))
	ne := IfaceV{[]IfaceAlt{{g: x.c.T}}}
	if fn.Signature.Results().Len() == 1 {
		return ne, true
	}
	return TupleV{[]Value{IntV{n}, ne}}, true
}

func (x *Exec) near(a, b, tol FloatV) *B {
	c := x.c
	d := c.LSub(a.l, b.l)
	le := c.And(c.Cmp(cmpLE, c.LSub(d, tol.l)), c.Cmp(cmpLE, c.LSub(c.LNeg(d), tol.l)))
	// NaN is close only to NaN
	return c.Ite(c.Or(a.spec, b.spec), c.And(a.spec, b.spec), le)
}

func (x *Exec) mkError(st *State, r *Rope) Value {
	pk := x.prog.ImportedPackage("errors")
	if pk == nil {
		unsup("errors package not loaded")
	}
	t := pk.Type("errorString").Object().Type()
	o := x.newObj()
	st.heap = st.heap.set(o, StructV{[]Value{r}})
	return IfaceV{[]IfaceAlt{{x.c.T, types.NewPointer(t), PtrV{[]PtrAlt{{x.c.T, Ref{obj: o}}}}}}}
}

func strMap(f func(string) string) handler {
	return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
		r, ok := x.mapRope(args[0].(*Rope), func(s string) *Rope { return litStr(f(s)) })
		if !ok {
			unsup("%s of a symbolic string", fn.Name())
		}
		return r, true
	}
}

func strTrim(f func(s, t string) string) handler {
	return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
		cut := x.constStr(args[1])
		r := args[0].(*Rope)
		if out, ok := x.mapRope(r, func(s string) *Rope { return litStr(f(s, cut)) }); ok {
			return out, true
		}
		if fn.Name() == "TrimRight" && len(cut) == 1 || fn.Name() == "TrimLeft" && len(cut) == 1 || fn.Name() == "Trim" && len(cut) == 1 {
			if bs, ok := r.bytes(x.c); ok {
				return x.trimBytes(bs, cut[0], fn.Name() != "TrimRight", fn.Name() != "TrimLeft"), true
			}
		}
		// a purely literal end can be trimmed in place
		if len(r.segs) > 0 && (fn.Name() == "TrimRight" || fn.Name() == "TrimSuffix") {
			last := r.segs[len(r.segs)-1]
			if last.isLit() {
				t := f(last.lit, cut)
				if t != "" || fn.Name() == "TrimSuffix" {
					return concatRope(&Rope{segs: r.segs[:len(r.segs)-1]}, litStr(t)), true
				}
			}
		}
		unsup("%s of a symbolic string", fn.Name())
		return nil, false
	}
}

func (x *Exec) trimBytes(bs []BV, ch byte, left, right bool) *Rope {
	c := x.c
	n := len(bs)
	is := make([]*B, n)
	for i := range bs {
		is[i] = c.BVEq(bs[i], c.Const(uint64(ch), 8))
	}
	// start position guards
	starts := []*B{}
	if left {
		acc := c.T
		for i := 0; i <= n; i++ {
			if i == n {
				starts = append(starts, acc)
				break
			}
			starts = append(starts, c.And(acc, c.Not(is[i])))
			acc = c.And(acc, is[i])
		}
	} else {
		for i := 0; i <= n; i++ {
			starts = append(starts, c.Bool(i == 0))
		}
	}
	var alts []RopeAlt
	for s := 0; s <= n; s++ {
		if starts[s] == c.F {
			continue
		}
		acc := c.T
		for e := n; e >= s; e-- {
			var g *B
			if !right {
				if e != n {
					break
				}
				g = c.T
			} else if e == s {
				g = acc
			} else {
				g = c.And(acc, c.Not(is[e-1]))
				acc = c.And(acc, is[e-1])
			}
			if g = c.And(starts[s], g); g == c.F {
				continue
			}
			var rs []*Rope
			for _, b := range bs[s:e] {
				rs = append(rs, byteRope(b))
			}
			alts = append(alts, RopeAlt{g, concatRope(rs...)})
		}
	}
	if len(alts) == 1 {
		return alts[0].r
	}
	return &Rope{segs: []Seg{{alts: alts}}}
}

// formatFloat is strconv.FormatFloat where it gives what a verb of fmt gives.
func (x *Exec) formatFloat(f FloatV, form byte, prec, size int) *Rope {
	c := x.c
	if size != 32 && size != 64 || size == 32 && !c.isFloat(f.l, 32) {
		return nil
	}
	v := FloatV{f.l, f.spec, size}
	t := types.Typ[types.Float64]
	if size == 32 {
		t = types.Typ[types.Float32]
	}
	switch {
	case form == 'f' && prec >= 0:
		return x.opaque(fmt.Sprintf("%%.%df", prec), v, t)
	case prec != -1 || form != 'f' && form != 'g':
		return nil
	case f.l.lo == nil || f.l.hi == nil || maxR(rabs(f.l.lo), rabs(f.l.hi)).Cmp(rat(1000000)) >= 0:
		return nil
	case form == 'f' && (linGran(f.l) == noGran || linGran(f.l) < -13):
		return nil
	}
	return x.opaque("%v", v, t)
}

// strPred evaluates a predicate on strings with constant alternatives.
func (x *Exec) strPred(a, b *Rope, f func(s, t string) bool) *B {
	c := x.c
	if s, ok := b.konst(); ok {
		if t, ok := a.konst(); ok {
			return c.Bool(f(t, s))
		}
		// prefix decided by a literal head
		if len(a.segs) > 0 && a.segs[0].isLit() && len(a.segs[0].lit) >= len(s) && len(s) > 0 {
			probe := a.segs[0].lit
			if f(probe+"\x00", s) == f(probe, s) && f("\x00"+probe, s) == false && !f(probe[1:], s) {
				return c.Bool(f(probe, s))
			}
		}
		ea, ok := a.expand(c, 4096)
		if ok {
			var parts []*B
			good := true
			for _, p := range ea {
				t, ok := p.r.konst()
				if !ok {
					good = false
					break
				}
				if f(t, s) {
					parts = append(parts, p.g)
				}
			}
			if good {
				return c.OrAll(parts)
			}
		}
		if f("a"+s+"b", s) { // Contains
			return x.ropeContains(a, s)
		}
		if bs, ok := a.bytes(c); ok {
			if len(bs) < len(s) {
				return c.F
			}
			off := 0
			if f("a"+s, s) { // suffix
				off = len(bs) - len(s)
			}
			var ps []*B
			for i := 0; i < len(s); i++ {
				ps = append(ps, c.BVEq(bs[off+i], c.Const(uint64(s[i]), 8)))
			}
			return c.AndAll(ps)
		}
		if f(s+"a", s) { // HasPrefix
			return x.ropePrefix(a, s)
		}
	}
	unsup("string predicate on symbolic strings")
	return nil
}

// strFind is the first (or last) position at which one of the constants occurs, or -1.
func (x *Exec) strFind(r *Rope, subs []string, last bool) Value {
	c := x.c
	bs, ok := r.bytes(c)
	if !ok {
		unsup("index into a complex string")
	}
	res := c.Const(^uint64(0), 64)
	n := len(bs)
	for k := 0; k <= n; k++ {
		i := n - k
		if last {
			i = k
		}
		var hit []*B
		for _, s := range subs {
			if i+len(s) > n {
				continue
			}
			var ps []*B
			for j := 0; j < len(s); j++ {
				ps = append(ps, c.BVEq(bs[i+j], c.Const(uint64(s[j]), 8)))
			}
			hit = append(hit, c.AndAll(ps))
		}
		res = c.BVIte(c.OrAll(hit), c.Const(uint64(i), 64), res)
	}
	return IntV{res}
}

// ropePrefix: does r start with the constant s?
func (x *Exec) ropePrefix(r *Rope, s string) *B {
	if s == "" {
		return x.c.T
	}
	m := &matcher{x: x, prefix: true, memo: map[string]*B{}}
	return m.match(r.segs, []Seg{{lit: s}})
}

// replaceAll replaces a separator inside literal text; formatted values are
// assumed not to contain it.
func (x *Exec) replaceAll(r *Rope, a, b string) *Rope {
	var out []*Rope
	for _, s := range r.segs {
		switch {
		case s.isLit():
			out = append(out, litStr(strings.ReplaceAll(s.lit, a, b)))
		case s.alts != nil:
			n := Seg{}
			for _, t := range s.alts {
				n.alts = append(n.alts, RopeAlt{t.g, x.replaceAll(t.r, a, b)})
			}
			out = append(out, &Rope{segs: []Seg{n}})
		case s.ch != nil:
			if len(a) != 1 {
				x.note("multi-byte replacement ignores matches across symbolic bytes")
				out = append(out, &Rope{segs: []Seg{s}})
				break
			}
			is := x.c.BVEq(s.ch, x.c.Const(uint64(a[0]), 8))
			out = append(out, x.mergeRope(is, litStr(b), &Rope{segs: []Seg{s}}))
		default:
			out = append(out, &Rope{segs: []Seg{s}})
		}
	}
	return concatRope(out...)
}

// split cuts a rope at literal separators. Alternatives that contain the
// separator are expanded; formatted values are assumed not to contain it.
func (x *Exec) split(st *State, r *Rope, sep string) Value {
	c := x.c
	mk := func(parts []*Rope) SliceAlt {
		a := ArrayV{}
		for _, p := range parts {
			a.e = append(a.e, p)
		}
		o := x.newObj()
		st.heap = st.heap.set(o, a)
		return SliceAlt{g: c.T, r: Ref{obj: o}, len: len(parts), cap: len(parts)}
	}
	if parts, ok := splitFlat(r, sep); ok {
		return SliceV{[]SliceAlt{mk(parts)}}
	}
	alts, ok := x.expandSep(r, sep, 600)
	if !ok {
		unsup("strings.Split of a complex string")
	}
	var out SliceV
	for _, a := range alts {
		parts, ok := splitFlat(a.r, sep)
		if !ok {
			unsup("strings.Split of a complex string")
		}
		sa := mk(parts)
		sa.g = a.g
		out.alts = append(out.alts, sa)
	}
	return out
}

func ropeHas(r *Rope, sep string) bool {
	for _, s := range r.segs {
		if s.isLit() && strings.Contains(s.lit, sep) {
			return true
		}
		for _, a := range s.alts {
			if ropeHas(a.r, sep) {
				return true
			}
		}
	}
	return false
}

// expandSep expands only the alternatives whose text contains sep.
func (x *Exec) expandSep(r *Rope, sep string, limit int) ([]RopeAlt, bool) {
	c := x.c
	acc := []RopeAlt{{c.T, &Rope{}}}
	for _, s := range r.segs {
		one := &Rope{segs: []Seg{s}}
		if s.alts == nil || !ropeHas(one, sep) {
			for i := range acc {
				acc[i].r = concatRope(acc[i].r, one)
			}
			continue
		}
		// group alternatives by their separator-free shape
		var next []RopeAlt
		for _, a := range s.alts {
			sub, ok := x.expandSep(a.r, sep, limit)
			if !ok {
				return nil, false
			}
			for _, t := range sub {
				for _, p := range acc {
					g := c.And(p.g, a.g, t.g)
					if g == c.F {
						continue
					}
					next = append(next, RopeAlt{g, concatRope(p.r, t.r)})
					if len(next) > limit {
						return nil, false
					}
				}
			}
		}
		acc = next
	}
	return acc, true
}

func splitFlat(r *Rope, sep string) ([]*Rope, bool) {
	var parts []*Rope
	cur := &Rope{}
	for _, s := range r.segs {
		if !s.isLit() {
			if s.ch != nil || s.alts != nil && ropeHas(&Rope{segs: []Seg{s}}, sep) {
				if s.ch != nil && len(sep) == 1 {
					return nil, false
				}
				if s.alts != nil {
					return nil, false
				}
			}
			cur = concatRope(cur, &Rope{segs: []Seg{s}})
			continue
		}
		ps := strings.Split(s.lit, sep)
		cur = concatRope(cur, litStr(ps[0]))
		for _, p := range ps[1:] {
			parts = append(parts, cur)
			cur = litStr(p)
		}
	}
	return append(parts, cur), true
}

// ---------------------------------------------------------------- formatting

func (x *Exec) ifaceArgs(st *State, v Value) []IfaceV {
	sv := v.(SliceV)
	if len(sv.alts) != 1 {
		unsup("variadic slice with several shapes")
	}
	var out []IfaceV
	for _, e := range x.sliceElems(st, sv.alts[0]) {
		out = append(out, e.(IfaceV))
	}
	return out
}

func qual(p *types.Package) string { return p.Name() }

func (x *Exec) sprintf(fr *frame, st *State, f, va Value, cc *ssa.CallCommon) (*Rope, bool) {
	format, ok := f.(*Rope).konst()
	if !ok {
		// choice of formats
		alts, ok := f.(*Rope).expand(x.c, 64)
		if !ok {
			unsup("symbolic format string")
		}
		var res *Rope
		for k := len(alts) - 1; k >= 0; k-- {
			if _, ok := alts[k].r.konst(); !ok {
				unsup("symbolic format string")
			}
			r, _ := x.sprintf(fr, st, alts[k].r, va, cc)
			if res == nil {
				res = r
			} else {
				res = x.mergeRope(alts[k].g, r, res)
			}
		}
		return res, true
	}
	args := x.ifaceArgs(st, va)
	var out []*Rope
	n := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = append(out, litStr(format[i:]))
			break
		}
		out = append(out, litStr(format[i:i+j]))
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			out = append(out, litStr("%!(NOVERB)"))
			break
		}
		verb := rune(format[k])
		if verb == '*' || verb == '[' || verb >= 0x80 {
			unsup("format %q", format)
		}
		spec := format[i : k+1]
		i = k + 1
		if verb == '%' {
			out = append(out, litStr("%"))
			continue
		}
		if n >= len(args) {
			out = append(out, litStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		out = append(out, x.fmtArg(fr, st, spec, verb, args[n], cc))
		n++
	}
	if n < len(args) {
		s := "%!(EXTRA "
		for q := n; q < len(args); q++ {
			if q > n {
				s += ", "
			}
			s += "?"
		}
		out = append(out, litStr(s+")"))
	}
	return concatRope(out...), true
}

func (x *Exec) fmtArg(fr *frame, st *State, spec string, verb rune, a IfaceV, cc *ssa.CallCommon) *Rope {
	var res *Rope
	for k := len(a.alts) - 1; k >= 0; k-- {
		t := a.alts[k]
		if g := x.simp(st.pc, t.g); g == x.c.F {
			continue
		}
		var r *Rope
		if t.t == nil {
			if verb == 'v' {
				r = litStr("<nil>")
			} else {
				r = litStr("%!" + string(verb) + "(<nil>)")
			}
		} else {
			r = x.fmtOne(fr, st, spec, verb, t.v, t.t, cc)
		}
		if res == nil {
			res = r
		} else {
			res = x.mergeRope(t.g, r, res)
		}
	}
	if res == nil {
		res = &Rope{}
	}
	return res
}

func (x *Exec) opaque(spec string, v Value, t types.Type) *Rope {
	return &Rope{segs: []Seg{{fm: &FmtSeg{spec, v, t}}}}
}

// elemType is the element type of a list of plain numbers or strings.
func elemType(t types.Type) types.Type {
	var e types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		e = u.Elem()
	case *types.Array:
		e = u.Elem()
	default:
		return nil
	}
	if _, ok := e.Underlying().(*types.Basic); !ok {
		return nil
	}
	return e
}

func (x *Exec) fmtOne(fr *frame, st *State, spec string, verb rune, v Value, t types.Type, cc *ssa.CallCommon) *Rope {
	c := x.c
	if verb == 'T' {
		return litStr(types.TypeString(t, qual))
	}
	if verb == 'w' {
		verb = 'v'
		spec = strings.Replace(spec, "w", "v", 1)
	}
	// Error / String methods
	if strings.ContainsRune("vsxXq", verb) && !strings.Contains(spec, "#v") {
		for _, m := range []string{"Error", "String"} {
			ms := x.prog.MethodSets.MethodSet(t)
			sel := ms.Lookup(nil, m)
			if sel == nil {
				continue
			}
			sg := sel.Obj().Type().(*types.Signature)
			if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !isString(sg.Results().At(0).Type()) {
				continue
			}
			fn := x.prog.MethodValue(sel)
			if fn == nil {
				continue
			}
			base := *st
			r, ok := x.callStatic(fr, st, fn, []Value{v}, nil, cc, nil)
			if !ok {
				*st = base
				return litStr("%!v(PANIC)")
			}
			return x.fmtStr(spec, r.(*Rope))
		}
	}
	bad := func() *Rope {
		return concatRope(litStr("%!"+string(verb)+"("+types.TypeString(t, qual)+"="), x.opaque("%v", v, t), litStr(")"))
	}
	switch p := v.(type) {
	case IntV:
		w, signed, _ := intWidth(t)
		if w == 1 && types.Identical(t.Underlying(), types.Typ[types.Bool]) {
			if verb != 't' && verb != 'v' {
				return bad()
			}
			return x.mergeRope(p.b[0], x.padLit(spec, fmt.Sprintf(spec, true)), x.padLit(spec, fmt.Sprintf(spec, false)))
		}
		if !strings.ContainsRune("vdboOqxXcU", verb) {
			return bad()
		}
		if verb == 'c' {
			if cv, ok := p.b.constSigned(); ok {
				return litStr(fmt.Sprintf(spec, rune(cv)))
			}
			if spec == "%c" {
				return x.convert(st, p, t, types.Typ[types.String]).(*Rope)
			}
			return x.opaque(spec, v, t)
		}
		if u, ok := p.b.constVal(); ok {
			if signed {
				s, _ := p.b.constSigned()
				return litStr(fmt.Sprintf(spec, s))
			}
			if spec == "%#v" {
				return litStr(fmt.Sprintf("0x%x", u))
			}
			return litStr(fmt.Sprintf(spec, u))
		}
		// few free bits: enumerate the text exactly
		if r := x.enumFmt(spec, p.b, signed); r != nil {
			return r
		}
		return x.opaque(spec, v, t)
	case FloatV:
		if !strings.ContainsRune("veEfFgGbxX", verb) {
			return bad()
		}
		if p.l.isConst() && p.spec == c.F {
			f, _ := p.l.k.Float64()
			if p.size == 32 {
				return litStr(fmt.Sprintf(spec, float32(f)))
			}
			return litStr(fmt.Sprintf(spec, f))
		}
		return x.opaque(spec, v, t)
	case *Rope:
		if !strings.ContainsRune("vsqxX", verb) {
			return bad()
		}
		return x.fmtStr(spec, p)
	case SliceV, ArrayV, StructV, MapV:
		if s, ok := v.(SliceV); ok && len(s.alts) == 1 && verb != 'T' {
			v = ArrayV{x.sliceElems(st, s.alts[0])}
		}
		if a, ok := v.(ArrayV); ok && spec == "%v" {
			if et := elemType(t); et != nil {
				out := []*Rope{litStr("[")}
				for i, e := range a.e {
					if i > 0 {
						out = append(out, litStr(" "))
					}
					out = append(out, x.fmtOne(fr, st, spec, verb, e, et, cc))
				}
				return concatRope(append(out, litStr("]"))...)
			}
		}
		return x.opaque(spec, v, t)
	case PtrV, FuncV:
		if verb == 's' || verb == 't' || verb == 'q' {
			return bad()
		}
		return x.opaque(spec, v, t)
	}
	unsup("format of %T", v)
	return nil
}

func (x *Exec) padLit(spec, s string) *Rope { return litStr(s) }

func (x *Exec) fmtStr(spec string, r *Rope) *Rope {
	if spec == "%v" || spec == "%s" {
		return r
	}
	if out, ok := x.mapRope(r, func(s string) *Rope { return litStr(fmt.Sprintf(spec, s)) }); ok {
		return out
	}
	return x.opaque(spec, r, types.Typ[types.String])
}

// enumFmt expands the text of an integer with at most 4 distinct symbolic bits.
func (x *Exec) enumFmt(spec string, b BV, signed bool) *Rope {
	c := x.c
	var vars []*B
	seen := map[*B]int{}
	for _, y := range b {
		if y.isConst() {
			continue
		}
		base := y
		if y.k == kNot {
			base = y.a[0]
		}
		if _, ok := seen[base]; !ok {
			seen[base] = len(vars)
			vars = append(vars, base)
		}
	}
	if len(vars) > 4 {
		return nil
	}
	var alts []RopeAlt
	for m := 0; m < 1<<uint(len(vars)); m++ {
		v := make(BV, len(b))
		for i, y := range b {
			switch {
			case y.isConst():
				v[i] = y
			case y.k == kNot:
				v[i] = c.Bool(m>>uint(seen[y.a[0]])&1 == 0)
			default:
				v[i] = c.Bool(m>>uint(seen[y])&1 == 1)
			}
		}
		var gs []*B
		for k, y := range vars {
			if m>>uint(k)&1 == 1 {
				gs = append(gs, y)
			} else {
				gs = append(gs, c.Not(y))
			}
		}
		var s string
		if signed {
			n, _ := v.constSigned()
			s = fmt.Sprintf(spec, n)
		} else {
			n, _ := v.constVal()
			s = fmt.Sprintf(spec, n)
		}
		if g := c.And(gs...); g != c.F {
			alts = append(alts, RopeAlt{g, litStr(s)})
		}
	}
	if len(alts) == 1 {
		return alts[0].r
	}
	return &Rope{segs: []Seg{{alts: alts}}}
}

func (x *Exec) fmtBase(fr *frame, st *State, args []Value, t types.Type, cc *ssa.CallCommon) *Rope {
	base := x.constInt(args[1])
	spec := map[int]string{2: "%b", 8: "%o", 10: "%d", 16: "%x"}[base]
	if spec == "" {
		unsup("number base %d", base)
	}
	return x.fmtOne(fr, st, spec, rune(spec[1]), args[0], t, cc)
}

func (x *Exec) sprint(fr *frame, st *State, va Value, ln bool, cc *ssa.CallCommon) *Rope {
	var out []*Rope
	args := x.ifaceArgs(st, va)
	isS := func(a IfaceV) bool {
		for _, t := range a.alts {
			if t.t == nil || !isString(t.t) {
				return false
			}
		}
		return true
	}
	for i, a := range args {
		if i > 0 && (ln || !isS(a) && !isS(args[i-1])) {
			out = append(out, litStr(" "))
		}
		out = append(out, x.fmtArg(fr, st, "%v", 'v', a, cc))
	}
	return concatRope(out...)
}

// ---------------------------------------------------------------- math

func f64(x *Exec, v float64) Value {
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return FloatV{x.c.LConst(new(big.Rat)), x.c.T, 64}
	}
	return FloatV{x.c.LConst(ratF(v)), x.c.F, 64}
}

func mathHandler(name string) (handler, bool) {
	un := map[string]func(float64) float64{"Sqrt": math.Sqrt, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Acos": math.Acos,
		"Asin": math.Asin, "Atan": math.Atan, "Exp": math.Exp, "Log": math.Log}
	if f, ok := un[name]; ok {
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.mathFn(st, name, f, args[0].(FloatV)), true
		}, true
	}
	switch name {
	case "Abs":
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			a := args[0].(FloatV)
			neg := x.choose(st, x.c.Cmp(cmpLT, a.l))
			l := x.c.LIte(neg, x.c.LNeg(a.l), a.l)
			if neg == x.c.T || neg == x.c.F {
				return FloatV{l, a.spec, 64}, true
			}
			l = x.withBounds(l, func(lo, hi *big.Rat) (*big.Rat, *big.Rat) { return absBounds(a.l) })
			return FloatV{l, a.spec, 64}, true
		}, true
	case "Floor", "Ceil", "Trunc", "Round":
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			c := x.c
			a := args[0].(FloatV)
			fl := func(l *Lin) *Lin {
				if r, ok := x.uniFloor(st, l); ok {
					return r
				}
				r := x.floorL(l)
				// a quotient with a handful of values is settled right away
				if x.paths && !r.isConst() && r.lo != nil && r.hi != nil {
					lo, hi := r.lo, r.hi
					if x.floors {
						if lo, hi = x.along(st, r); lo.Cmp(hi) == 0 {
							return c.LConst(lo)
						}
					}
					if _, ok := c.leaves(l); !ok && x.floors {
						if u, v := x.along(st, l); u != nil && v != nil {
							lo = maxOf(lo, new(big.Rat).SetInt(new(big.Int).Div(u.Num(), u.Denom())))
							hi = minOf(hi, new(big.Rat).SetInt(new(big.Int).Div(v.Num(), v.Denom())))
						}
						if n := rsub(hi, lo); n.Sign() >= 0 && n.Cmp(rat(8)) <= 0 {
							return x.settleFloor(st, lo, hi, l)
						}
					} else if ok && rsub(r.hi, r.lo).Cmp(rat(3)) <= 0 {
						return x.settle(st, r)
					}
				}
				return r
			}
			var r *Lin
			switch name {
			case "Floor":
				r = fl(a.l)
			case "Ceil":
				r = c.LNeg(fl(c.LNeg(a.l)))
			case "Trunc":
				neg := x.choose(st, c.Cmp(cmpLT, a.l))
				r = c.LIte(neg, c.LNeg(fl(c.LNeg(a.l))), fl(a.l))
			case "Round":
				h := c.LConst(big.NewRat(1, 2))
				neg := x.choose(st, c.Cmp(cmpLT, a.l))
				r = c.LIte(neg, c.LNeg(fl(c.LAdd(c.LNeg(a.l), h))), fl(c.LAdd(a.l, h)))
			}
			return FloatV{r, a.spec, 64}, true
		}, true
	case "Max", "Min":
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			c := x.c
			a, b := args[0].(FloatV), args[1].(FloatV)
			less := x.choose(st, c.Cmp(cmpLT, c.LSub(a.l, b.l)))
			if name == "Max" {
				less = c.Not(less)
			}
			r := c.LIte(less, a.l, b.l)
			if !c.pathMode {
				r = x.withBounds(r, func(lo, hi *big.Rat) (*big.Rat, *big.Rat) {
					if name == "Max" {
						return maxOf(a.l.lo, b.l.lo), hi
					}
					return lo, minOf(a.l.hi, b.l.hi)
				})
				if len(r.bt) == 0 && len(r.rt) == 1 && r.k.Sign() == 0 && r.rt[0].v.k == rIte && r.rt[0].c.Cmp(rat(1)) == 0 {
					r.rt[0].v.lo, r.rt[0].v.hi = maxOf(r.rt[0].v.lo, r.lo), minOf(r.rt[0].v.hi, r.hi)
				}
			}
			return FloatV{r, c.Or(a.spec, b.spec), 64}, true
		}, true
	case "Pow":
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			a, b := args[0].(FloatV), args[1].(FloatV)
			c := x.c
			if a.l.isConst() && b.l.isConst() && a.spec == c.F && b.spec == c.F {
				u, _ := a.l.k.Float64()
				v, _ := b.l.k.Float64()
				return f64(x, math.Pow(u, v)), true
			}
			if b.l.isConst() && b.l.k.IsInt() {
				n := b.l.k.Num().Int64()
				if n >= 0 && n <= 4 {
					if n == 0 {
						return FloatV{c.LConst(rat(1)), c.F, 64}, true
					}
					r := a
					for ; n > 1; n-- {
						r = x.fl(c.LMul(r.l, a.l), a.spec, 64).(FloatV)
					}
					return r, true
				}
			}
			if a.l.isConst() { // constant base, small integer exponent: table
				if fb, ok := x.floorBits(b.l); ok && b.l.lo != nil && b.l.hi != nil && linGran(b.l) >= 0 && linGran(b.l) != noGran {
					lo, hi := b.l.lo.Num().Int64(), b.l.hi.Num().Int64()
					if hi-lo <= 64 {
						base, _ := a.l.k.Float64()
						var l *Lin
						for k := lo; k <= hi; k++ {
							v := c.LConst(ratF(math.Pow(base, float64(k))))
							if l == nil {
								l = v
							} else {
								l = c.LIte(c.BVEq(fb, c.ConstBig(big.NewInt(k), 64)), v, l)
							}
						}
						return FloatV{l, b.spec, 64}, true
					}
				}
			}
			unsup("math.Pow of symbolic operands")
			return nil, false
		}, true
	case "Mod":
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			c := x.c
			a, b := args[0].(FloatV), args[1].(FloatV)
			if a.l.isConst() && b.l.isConst() && a.spec == c.F && b.spec == c.F {
				u, _ := a.l.k.Float64()
				v, _ := b.l.k.Float64()
				return f64(x, math.Mod(u, v)), true
			}
			if !b.l.isConst() || b.l.k.Sign() == 0 {
				unsup("math.Mod by a symbolic operand")
			}
			m := rabs(b.l.k)
			inv := new(big.Rat).Inv(m)
			neg := c.Cmp(cmpLT, a.l)
			pos := func(l *Lin) *Lin { return c.LSub(l, c.LScale(x.floorL(c.LScale(l, inv)), m)) }
			r := c.LIte(neg, c.LNeg(pos(c.LNeg(a.l))), pos(a.l))
			r = x.withBounds(r, func(lo, hi *big.Rat) (*big.Rat, *big.Rat) {
				lo, hi = rneg(m), m
				if neg == c.F {
					lo = new(big.Rat)
				}
				return lo, hi
			})
			return FloatV{r, a.spec, 64}, true
		}, true
	case "Hypot":
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			a, b := args[0].(FloatV), args[1].(FloatV)
			c := x.c
			s := c.LAdd(c.LMul(a.l, a.l), c.LMul(b.l, b.l))
			return x.mathFn(st, "Sqrt", math.Sqrt, FloatV{c.Round(s, 64), c.Or(a.spec, b.spec), 64}), true
		}, true
	case "Atan2":
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			a, b := args[0].(FloatV), args[1].(FloatV)
			c := x.c
			if a.l.isConst() && b.l.isConst() && a.spec == c.F && b.spec == c.F {
				u, _ := a.l.k.Float64()
				v, _ := b.l.k.Float64()
				return f64(x, math.Atan2(u, v)), true
			}
			pi := ratF(math.Nextafter(math.Pi, 4))
			lo, hi := rneg(pi), pi
			if !c.pathMode && a.l.lo != nil && a.l.lo.Sign() >= 0 { // the upper half plane
				lo = new(big.Rat)
				if b.l.lo != nil && b.l.lo.Sign() >= 0 {
					hi = ratF(math.Nextafter(math.Pi/2, 4))
					if a.l.hi != nil && b.l.hi != nil { // increasing in y, decreasing in x
						lo = ratF(math.Max(0, math.Atan2(ratFloor64(a.l.lo), ratCeil64(b.l.hi))-5e-16))
						hi = minOf(hi, ratF(math.Atan2(ratCeil64(a.l.hi), ratFloor64(b.l.lo))+5e-16))
					}
				}
			}
			v := c.rv(rFn, "atan2", a.l, b.l, nil, lo, hi)
			x.atan2Axioms(v, a.l, b.l)
			return FloatV{c.LofRV(v), c.Or(a.spec, b.spec), 64}, true
		}, true
	case "IsNaN":
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(args[0].(FloatV).spec), true
		}, true
	case "IsInf":
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return x.boolV(args[0].(FloatV).spec), true
		}, true
	case "NaN", "Inf":
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			return FloatV{x.c.LConst(new(big.Rat)), x.c.T, 64}, true
		}, true
	case "Float64bits", "Float32bits", "Float64frombits", "Float32frombits":
		return func(x *Exec, fr *frame, st *State, fn *ssa.Function, args []Value, cc *ssa.CallCommon) (Value, bool) {
			if f, ok := args[0].(FloatV); ok && f.l.isConst() && f.spec == x.c.F {
				v, _ := f.l.k.Float64()
				if name == "Float64bits" {
					return IntV{x.c.Const(math.Float64bits(v), 64)}, true
				}
				return IntV{x.c.Const(uint64(math.Float32bits(float32(v))), 32)}, true
			}
			if i, ok := args[0].(IntV); ok {
				if u, ok := i.b.constVal(); ok {
					if name == "Float64frombits" {
						return f64(x, math.Float64frombits(u)), true
					}
					v := f64(x, float64(math.Float32frombits(uint32(u)))).(FloatV)
					v.size = 32
					return v, true
				}
			}
			unsup("math.%s of a symbolic value", name)
			return nil, false
		}, true
	}
	return nil, false
}

func absBounds(l *Lin) (*big.Rat, *big.Rat) {
	if l.lo == nil || l.hi == nil {
		return new(big.Rat), nil
	}
	hi := maxR(rabs(l.lo), rabs(l.hi))
	lo := new(big.Rat)
	if l.lo.Sign() > 0 {
		lo = l.lo
	} else if l.hi.Sign() < 0 {
		lo = rneg(l.hi)
	}
	return lo, hi
}

// withBounds tightens the interval recorded for a term known to lie in a range.
func (x *Exec) withBounds(l *Lin, f func(lo, hi *big.Rat) (*big.Rat, *big.Rat)) *Lin {
	if l.isConst() {
		return l
	}
	lo, hi := f(l.lo, l.hi)
	if l.lo == nil || lo != nil && lo.Cmp(l.lo) > 0 {
		l.lo = lo
	}
	if l.hi == nil || hi != nil && hi.Cmp(l.hi) < 0 {
		l.hi = hi
	}
	return l
}

// floorL is floor(l) as a real term.
func (x *Exec) floorL(l *Lin) *Lin {
	c := x.c
	if l.isConst() {
		return c.LConst(new(big.Rat).SetInt(new(big.Int).Div(l.k.Num(), l.k.Denom())))
	}
	if g := linGran(l); g != noGran && g >= 0 {
		return l
	}
	if l.lo != nil && l.hi != nil {
		a := new(big.Int).Div(l.lo.Num(), l.lo.Denom())
		b := new(big.Int).Div(l.hi.Num(), l.hi.Denom())
		if a.Cmp(b) == 0 {
			return c.LConst(new(big.Rat).SetInt(a))
		}
		// on paths, a result with few values is settled, which says more of the
		// number than its upper bits do
		few := c.pathMode && len(l.rt) == 0 && new(big.Int).Sub(b, a).Cmp(big.NewInt(3)) <= 0
		if i, r := c.wholePart(l); !few && !i.isConst() && r.lo != nil && r.hi != nil && rsub(r.hi, r.lo).Cmp(rat(1)) <= 0 {
			return c.LAdd(i, x.floorL(r))
		}
		// rounding a multiple of 1/n does not carry it past an integer
		if n := len(l.rt); n == 1 {
			if ro, ok := c.rounds[l.rt[0].v]; ok && c.LAdd(ro.l, c.LofRV(l.rt[0].v)) == l {
				v := l.rt[0].v
				if u := unitOfOne(ro.l); u != nil && v.hi != nil && v.hi.Cmp(u) < 0 {
					return x.floorL(ro.l)
				}
			}
		}
		// integer part and a fraction in [0,1) when the integer part is explicit
		if fb, ok := x.floorBits(l); ok {
			r := c.LFromBV(fb, true)
			return x.withBounds(r, func(lo, hi *big.Rat) (*big.Rat, *big.Rat) {
				return new(big.Rat).SetInt(a), new(big.Rat).SetInt(b)
			})
		}
	}
	v := c.rv(rFloor, "", l, nil, nil, nil, nil)
	v.isInt = true
	if l.lo != nil {
		v.lo = new(big.Rat).SetInt(new(big.Int).Div(l.lo.Num(), l.lo.Denom()))
	}
	if l.hi != nil {
		v.hi = new(big.Rat).SetInt(new(big.Int).Div(l.hi.Num(), l.hi.Denom()))
	}
	return c.LofRV(v)
}

// wholePart splits a term into an integer-valued one and the rest, taking
// coefficients within 1e-9 of an integer apart.
func (c *Ctx) wholePart(l *Lin) (whole, rest *Lin) {
	var bt []ltermB
	var rt []ltermR
	tiny := big.NewRat(1, 1000000000)
	near := func(q *big.Rat) *big.Rat {
		h := radd(q, big.NewRat(1, 2))
		n := new(big.Rat).SetInt(new(big.Int).Div(h.Num(), h.Denom()))
		if n.Sign() == 0 || rabs(rsub(q, n)).Cmp(tiny) > 0 {
			return nil
		}
		return n
	}
	for _, t := range l.bt {
		if n := near(t.c); n != nil {
			bt = append(bt, ltermB{t.b, n})
		}
	}
	for _, t := range l.rt {
		if !t.v.isInt {
			continue
		}
		if n := near(t.c); n != nil {
			rt = append(rt, ltermR{t.v, n})
		}
	}
	whole = c.mkLin(new(big.Rat), bt, rt)
	return whole, c.LSub(l, whole)
}

// widen by a relative+absolute slack that covers the library's error
func slackLo(f float64) *big.Rat { return ratF(f - 4e-16*math.Abs(f) - 1e-300) }
func slackHi(f float64) *big.Rat { return ratF(f + 4e-16*math.Abs(f) + 1e-300) }

func ratFloor64(r *big.Rat) float64 {
	f, _ := r.Float64()
	return math.Nextafter(f, math.Inf(-1))
}
func ratCeil64(r *big.Rat) float64 {
	f, _ := r.Float64()
	return math.Nextafter(f, math.Inf(1))
}

// maxOf and minOf are the larger and smaller of two bounds of which either may
// be missing.
func maxOf(a, b *big.Rat) *big.Rat {
	if a == nil || b != nil && b.Cmp(a) > 0 {
		return b
	}
	return a
}

func minOf(a, b *big.Rat) *big.Rat {
	if a == nil || b != nil && b.Cmp(a) < 0 {
		return b
	}
	return a
}

// mathFn models an elementary function: a function symbol whose range follows
// from the interval of its argument by monotonicity.
func (x *Exec) mathFn(st *State, name string, f func(float64) float64, a FloatV) Value {
	c := x.c
	if a.l.isConst() {
		if a.spec != c.F {
			return FloatV{a.l, a.spec, 64}
		}
		u, _ := a.l.k.Float64()
		return f64(x, f(u))
	}
	if !c.pathMode && a.l.negLead() { // even and odd functions
		switch name {
		case "Cos":
			return x.mathFn(st, name, f, FloatV{c.LNeg(a.l), a.spec, a.size})
		case "Sin", "Asin", "Atan":
			r := x.mathFn(st, name, f, FloatV{c.LNeg(a.l), a.spec, a.size}).(FloatV)
			return FloatV{c.LNeg(r.l), r.spec, r.size}
		}
	}
	spec := a.spec
	arg := a.l
	var lo, hi *big.Rat
	one := rat(1)
	clampLo, clampHi := arg.lo, arg.hi
	switch name {
	case "Acos", "Asin":
		out := c.Or(x.uniCmp(st, cmpLT, c.LSub(c.LConst(one), arg)), x.uniCmp(st, cmpLT, c.LAdd(arg, c.LConst(one))))
		spec = c.Or(spec, out)
		if clampLo == nil || clampLo.Cmp(rat(-1)) < 0 {
			clampLo = rat(-1)
		}
		if clampHi == nil || clampHi.Cmp(one) > 0 {
			clampHi = one
		}
	case "Sqrt":
		spec = c.Or(spec, c.Cmp(cmpLT, arg))
		if clampLo == nil || clampLo.Sign() < 0 {
			clampLo = new(big.Rat)
		}
	case "Log":
		spec = c.Or(spec, c.Cmp(cmpLE, arg))
		unsup("math.Log of a symbolic operand")
	}
	bound := func(dec bool) {
		if clampLo != nil && clampHi != nil && clampLo.Cmp(clampHi) <= 0 {
			u, v := ratFloor64(clampLo), ratCeil64(clampHi)
			if name == "Acos" || name == "Asin" {
				u, v = math.Max(u, -1), math.Min(v, 1)
			}
			if name == "Sqrt" {
				u = math.Max(u, 0)
			}
			p, q := f(u), f(v)
			if dec {
				p, q = q, p
			}
			lo, hi = slackLo(p), slackHi(q)
		}
	}
	pi := math.Pi
	switch name {
	case "Sqrt":
		bound(false)
		if lo == nil || lo.Sign() < 0 {
			lo = new(big.Rat)
		}
	case "Acos":
		bound(true)
		if lo == nil || lo.Sign() < 0 {
			lo = new(big.Rat)
		}
	case "Asin", "Atan", "Exp":
		bound(false)
	case "Tan":
		unsup("math.Tan of a symbolic operand")
	case "Cos", "Sin":
		lo, hi = rat(-1), rat(1)
		if arg.lo != nil && arg.hi != nil {
			u, v := ratFloor64(arg.lo), ratCeil64(arg.hi)
			sh := 0.0
			if name == "Sin" {
				sh = pi / 2
			}
			// monotone pieces: extremes at multiples of pi (after the shift)
			k0 := math.Ceil((u - sh) / pi)
			p, q := f(u), f(v)
			mn, mx := math.Min(p, q), math.Max(p, q)
			const guard = 1e-12
			for k := k0 - 1; k*pi+sh <= v+guard; k++ {
				if k*pi+sh >= u-guard {
					if int64(k)%2 == 0 {
						mx = 1
					} else {
						mn = -1
					}
				}
			}
			lo, hi = maxR(lo, ratF(mn-2e-16)), minR(hi, ratF(mx+2e-16))
		}
	}
	v := c.rv(rFn, strings.ToLower(name), arg, nil, nil, lo, hi)
	l := c.LofRV(v)
	if name == "Sqrt" {
		x.sqrtAxiom(v, arg)
	}
	if lo != nil && hi != nil && lo.Cmp(hi) > 0 {
		x.note("empty range for " + name)
	}
	return FloatV{l, spec, 64}
}

// sqrtAxiom: |r*r - arg| <= 2^-51 * max(arg)
func (x *Exec) sqrtAxiom(v *RV, arg *Lin) {
	c := x.c
	key := fmt.Sprintf("ax:sqrt%d", v.id)
	if c.tab[key] != nil {
		return
	}
	c.tab[key] = c.T
	if arg.hi == nil {
		return
	}
	e := rmul(arg.hi, big.NewRat(1, 1<<51))
	sq := c.LMul(c.LofRV(v), c.LofRV(v))
	d := c.LSub(sq, arg)
	ax := c.And(c.Cmp(cmpLE, c.LSub(d, c.LConst(e))), c.Cmp(cmpLE, c.LSub(c.LNeg(d), c.LConst(e))))
	ax = c.Or(c.Cmp(cmpLT, arg), ax)
	c.axioms = append(c.axioms, axiom{b: ax, rvs: []*RV{v}, hard: true})
}

// atan2Axioms: sign/quadrant facts and the diagonal ordering.
func (x *Exec) atan2Axioms(v *RV, y, xx *Lin) {
	c := x.c
	key := fmt.Sprintf("ax:atan2%d", v.id)
	if c.tab[key] != nil {
		return
	}
	c.tab[key] = c.T
	l := c.LofRV(v)
	pos := func(a *Lin) *B { return c.Cmp(cmpLT, c.LNeg(a)) }
	neg := func(a *Lin) *B { return c.Cmp(cmpLT, a) }
	zero := func(a *Lin) *B { return c.Cmp(cmpEQ, a) }
	pi, h, q := ratF(math.Pi), ratF(math.Pi/2), ratF(math.Pi/4)
	gt := func(a *big.Rat) *B { return c.Cmp(cmpLT, c.LSub(c.LConst(a), l)) }
	lt := func(a *big.Rat) *B { return c.Cmp(cmpLT, c.LSub(l, c.LConst(a))) }
	eq := func(a *big.Rat) *B { return c.Cmp(cmpEQ, c.LSub(l, c.LConst(a))) }
	z := new(big.Rat)
	facts := []*B{
		c.Implies(c.And(zero(y), c.Or(pos(xx), zero(xx))), eq(z)),
		c.Implies(c.And(zero(y), neg(xx)), eq(pi)),
		c.Implies(c.And(pos(y), zero(xx)), eq(h)),
		c.Implies(c.And(neg(y), zero(xx)), eq(rneg(h))),
		c.Implies(c.And(pos(y), pos(xx)), c.And(gt(z), lt(h))),
		c.Implies(c.And(pos(y), neg(xx)), c.And(gt(h), lt(pi))),
		c.Implies(c.And(neg(y), pos(xx)), c.And(gt(rneg(h)), lt(z))),
		c.Implies(c.And(neg(y), neg(xx)), c.And(gt(rneg(pi)), lt(rneg(h)))),
		c.Implies(c.And(pos(y), pos(xx), c.Cmp(cmpLT, c.LSub(xx, y))), gt(q)),
		c.Implies(c.And(pos(y), pos(xx), c.Cmp(cmpLT, c.LSub(y, xx))), lt(q)),
	}
	c.axioms = append(c.axioms, axiom{b: c.AndAll(facts), rvs: []*RV{v}, hard: true})
}
