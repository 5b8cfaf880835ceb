package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PC is a path condition: a persistent list of conjuncts.
type PC struct {
	memo   map[*B]*B // simplifications under this condition
	parent *PC
	lit    *B
	depth  int
	full   *B // conjunction
	next   map[*B]*PC
	haves  map[*Lin]interval
	bounds map[*Lin]interval // path mode: what the literals say of single quantities
}

// State is the symbolic machine state inside one frame.
type State struct {
	pc   *PC
	heap *Heap
	env  []Value
}

// Obligation is something that must never be satisfiable.
type Obligation struct {
	Kind  string // "assert" | "panic"
	Label string
	Pos   string
	Cond  *B // satisfiable = violated
	Known string
	Run   int // path, in path mode
}

// Reach is a reachability witness.
type Reach struct {
	Label string
	Cond  *B
}

type Observe struct {
	Label string
	Guard *B
	V     Value
	Sgn   bool
}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	order *region
	phis  map[*ssa.BasicBlock][]*ssa.Phi
}

type region struct {
	header *ssa.BasicBlock // nil for the function
	blocks map[*ssa.BasicBlock]bool
	nodes  []regNode
}
type regNode struct {
	b *ssa.BasicBlock
	l *region
}

// Exec is one symbolic execution (one harness function).
type Exec struct {
	c        *Ctx
	prog     *ssa.Program
	mod      string // module path of the code under test
	harness  string // path prefix of harness packages
	infos    map[*ssa.Function]*fnInfo
	nextObj  int
	globals  map[*ssa.Global]int
	obls     []Obligation
	reaches  []Reach
	observes []Observe
	notes    map[string]int
	entered  map[string]int // functions of the code under test that were encoded
	inputs   map[string]int // bits per declared input
	solver   *Solver
	depth    int
	steps    int
	unwound  int
	maxIter  int
	frames   []*ssa.Function
	errT     types.Type // *errors.errorString
	gstate0  *Heap
	inputObj map[int]bool // objects created by sym.Bytes
	quiet    bool
	prunes   int
	initing  bool
	gwrites  []gwrite

	objGlobal  map[int]*ssa.Global
	badInit    map[string]bool
	inputOrder []string
	realIn     map[string]bool
	nAsserts   int
	trivial    int
	labels     map[string]int
	thorough   bool
	blocksRun  int
	deadline   time.Time

	paths         bool // path mode
	floors        bool // settle small floors of any term
	feas          map[*B]bool
	ucases        map[string][]ucase
	shard, shards int // this worker's part of the paths, when a harness is divided
	decs          []decision
	decN          int
	run           int
	uni           map[string][]upiece
}

type gwrite struct {
	g    *B
	name string
	pos  string
}

func NewExec(prog *ssa.Program, mod, harness string, solver *Solver) *Exec {
	return &Exec{c: NewCtx(), prog: prog, mod: mod, harness: harness, infos: map[*ssa.Function]*fnInfo{}, nextObj: 1,
		globals: map[*ssa.Global]int{}, notes: map[string]int{}, entered: map[string]int{}, inputs: map[string]int{},
		solver: solver, maxIter: 5000, inputObj: map[int]bool{},
		objGlobal: map[int]*ssa.Global{}, badInit: map[string]bool{}, realIn: map[string]bool{}, labels: map[string]int{}, uni: map[string][]upiece{}}
}

func (x *Exec) note(s string) { x.notes[s]++ }

func (x *Exec) newObj() int { o := x.nextObj; x.nextObj++; return o }

// ---------------------------------------------------------------- path conditions

func (x *Exec) pcAdd(p *PC, b *B) *PC {
	if b == x.c.T {
		return p
	}
	// what is derived from a condition is kept for the paths that share it
	if x.paths {
		if q, ok := p.next[b]; ok {
			return q
		}
	}
	q := &PC{parent: p, lit: b, depth: p.depth + 1, full: x.c.And(p.full, b)}
	if x.paths {
		if p.next == nil {
			p.next = map[*B]*PC{}
		}
		p.next[b] = q
	}
	return q
}

func (x *Exec) rootPC() *PC { return &PC{full: x.c.T, lit: x.c.T} }

// simp simplifies a condition using the literals of a path condition.
func (x *Exec) simp(p *PC, b *B) *B {
	if b.isConst() {
		return b
	}
	if p != nil && (x.paths || b.k == kAnd || b.k == kNot && b.a[0].k == kAnd) {
		if r, ok := p.memo[b]; ok {
			return r
		}
		r := x.simp1(p, b)
		if p.memo == nil {
			p.memo = map[*B]*B{}
		}
		p.memo[b] = r
		return r
	}
	return x.simp1(p, b)
}

func (x *Exec) simp1(p *PC, b *B) *B {
	nb := b.not
	for q := p; q != nil; q = q.parent {
		if q.lit == b {
			return x.c.T
		}
		if nb != nil && q.lit == nb {
			return x.c.F
		}
		if q.lit.k == kAnd {
			for _, y := range q.lit.a {
				if y == b {
					return x.c.T
				}
				if y == nb {
					return x.c.F
				}
			}
		}
	}
	if x.paths && p != nil {
		if r := x.known(p, b); r != nil {
			return r
		}
	}
	if b.k == kAnd {
		changed := false
		args := make([]*B, len(b.a))
		for i, y := range b.a {
			args[i] = x.simp(p, y)
			if args[i] != y {
				changed = true
			}
		}
		if changed {
			r := x.c.And(args...)
			if x.paths {
				r = x.simp(p, r)
			}
			return r
		}
	} else if b.k == kNot && b.a[0].k == kAnd {
		in := x.simp(p, b.a[0])
		if in != b.a[0] {
			r := x.c.Not(in)
			if x.paths {
				r = x.simp(p, r)
			}
			return r
		}
	}
	return b
}

const feasibleTimeout = 3 * time.Second

func (x *Exec) feasible(p *PC) bool {
	if p.full == x.c.F {
		return false
	}
	if p.full == x.c.T {
		return true
	}
	// An unanswered query counts as feasible, so a short limit is enough.
	// Executions of one harness share their beginnings, which must not diverge.
	if x.paths {
		if r, ok := x.feas[p.full]; ok {
			return r
		}
	}
	t := x.solver.Timeout
	if t > feasibleTimeout {
		x.solver.Timeout = feasibleTimeout
	}
	x.solver.RelaxOnly = x.paths
	r, _ := x.solver.Check(x.c, []*B{p.full}, false)
	x.solver.Timeout, x.solver.RelaxOnly = t, false
	if x.paths {
		if x.feas == nil {
			x.feas = map[*B]bool{}
		}
		x.feas[p.full] = r != "unsat"
	}
	return r != "unsat"
}

// mergePC returns the merged condition and the selector (true = a).
func (x *Exec) mergePC(a, b *PC) (*PC, *B) {
	p, q := a, b
	var la, lb []*B
	for p != q {
		if p != nil && (q == nil || p.depth >= q.depth) {
			la = append(la, p.lit)
			p = p.parent
		} else {
			lb = append(lb, q.lit)
			q = q.parent
		}
	}
	if p == nil {
		p = x.rootPC()
	}
	ra, rb := x.c.AndAll(la), x.c.AndAll(lb)
	sel := ra
	// prefer the simpler selector
	if nb := x.c.Not(rb); len(lb) < len(la) {
		sel = nb
	}
	or := x.c.Or(ra, rb)
	if or == x.c.T {
		return p, sel
	}
	return x.pcAdd(p, or), sel
}

func (x *Exec) mergeState(a, b *State) *State {
	pc, sel := x.mergePC(a.pc, b.pc)
	r := &State{pc: pc}
	r.heap = x.mergeHeap(sel, a.heap, b.heap)
	if a.env != nil {
		r.env = make([]Value, len(a.env))
		for i := range a.env {
			u, v := a.env[i], b.env[i]
			switch {
			case u == nil:
				r.env[i] = v
			case v == nil:
				r.env[i] = u
			default:
				r.env[i] = x.mergeLazy(sel, u, v)
			}
		}
	}
	return r
}

// mergeLazy merges registers; a failure to merge (dead values) drops the register.
func (x *Exec) mergeLazy(g *B, a, b Value) (r Value) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	return x.merge(g, a, b)
}

// ---------------------------------------------------------------- CFG regions

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if fi, ok := x.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	reach := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		reach[b] = true
		for _, s := range b.Succs {
			if !reach[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	rpo := map[*ssa.BasicBlock]int{}
	for i := range post {
		rpo[post[len(post)-1-i]] = i
	}
	for b := range reach {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := loops[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					loops[h] = body
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					n := st[len(st)-1]
					st = st[:len(st)-1]
					if body[n] {
						continue
					}
					body[n] = true
					for _, p := range n.Preds {
						if reach[p] {
							st = append(st, p)
						}
					}
				}
			} else if rpo[h] <= rpo[b] {
				unsup("irreducible control flow in %s", fn)
			}
		}
	}
	var build func(header *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) *region
	build = func(header *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) *region {
		r := &region{header: header, blocks: blocks}
		// outermost loops strictly inside
		inner := map[*ssa.BasicBlock]*ssa.BasicBlock{} // block -> header of its outermost inner loop
		for h, body := range loops {
			if h == header || !blocks[h] {
				continue
			}
			// is h's loop nested in another inner loop of this region?
			outer := true
			for h2, body2 := range loops {
				if h2 != h && h2 != header && blocks[h2] && body2[h] && len(body2) > len(body) {
					outer = false
				}
			}
			if outer {
				for b := range body {
					inner[b] = h
				}
			}
		}
		// topological order of the collapsed graph
		rep := func(b *ssa.BasicBlock) *ssa.BasicBlock {
			if h, ok := inner[b]; ok {
				return h
			}
			return b
		}
		seen := map[*ssa.BasicBlock]bool{}
		var ord []*ssa.BasicBlock
		var visit func(n *ssa.BasicBlock)
		visit = func(n *ssa.BasicBlock) {
			if seen[n] {
				return
			}
			seen[n] = true
			var succs []*ssa.BasicBlock
			if h, ok := inner[n]; ok && h == n {
				var bs []*ssa.BasicBlock
				for b := range loops[n] {
					bs = append(bs, b)
				}
				sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
				for _, b := range bs {
					succs = append(succs, b.Succs...)
				}
			} else {
				succs = n.Succs
			}
			for _, s := range succs {
				if !blocks[s] || s == header {
					continue
				}
				if q := rep(s); q != n {
					visit(q)
				}
			}
			ord = append(ord, n)
		}
		start := header
		if start == nil {
			start = fn.Blocks[0]
		}
		visit(rep(start))
		for i := len(ord) - 1; i >= 0; i-- {
			n := ord[i]
			if h, ok := inner[n]; ok && h == n {
				r.nodes = append(r.nodes, regNode{l: build(n, loops[n])})
			} else {
				r.nodes = append(r.nodes, regNode{b: n})
			}
		}
		return r
	}
	fi.order = build(nil, reach)
	x.infos[fn] = fi
	return fi
}

type edge struct {
	st   *State
	pred *ssa.BasicBlock
}

type frame struct {
	fn     *ssa.Function
	fi     *fnInfo
	rets   []retState
	bind   []Value
	defers []deferred
}
type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}
type retState struct {
	st *State
	v  Value
}

func (x *Exec) pos(p token.Pos) string {
	ps := x.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

const maxDepth = 120

// callFn executes fn on args from (pc, heap); returns nil state if it never returns.
func (x *Exec) callFn(fn *ssa.Function, args []Value, bind []Value, pc *PC, heap *Heap) (Value, *PC, *Heap) {
	if len(fn.Blocks) == 0 {
		unsup("function without body: %s", fn)
	}
	if x.depth > maxDepth {
		unsup("recursion deeper than %d in %s", maxDepth, fn)
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), x.mod) && !x.initing {
		x.entered[fn.String()]++
	}
	x.depth++
	x.frames = append(x.frames, fn)
	defer func() { x.depth--; x.frames = x.frames[:len(x.frames)-1] }()
	fi := x.info(fn)
	fr := &frame{fn: fn, fi: fi, bind: bind}
	st := &State{pc: pc, heap: heap, env: make([]Value, fi.n)}
	for i, p := range fn.Params {
		st.env[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.env[fi.idx[p]] = bind[i]
	}
	in := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{st, nil}}}
	x.runRegion(fr, fi.order, in)
	if len(fr.rets) == 0 {
		return nil, nil, nil
	}
	r := fr.rets[0]
	if len(fr.rets) > 1 {
		for _, o := range fr.rets[1:] {
			pc, sel := x.mergePC(r.st.pc, o.st.pc)
			h := x.mergeHeap(sel, r.st.heap, o.st.heap)
			var v Value
			if r.v != nil {
				v = x.merge(sel, r.v, o.v)
			}
			r = retState{&State{pc: pc, heap: h}, v}
		}
	}
	return r.v, r.st.pc, r.st.heap
}

// runRegion executes a region once; returns edges leaving it and its back edges.
func (x *Exec) runRegion(fr *frame, r *region, in map[*ssa.BasicBlock][]edge) (exits map[*ssa.BasicBlock][]edge, back []edge) {
	exits = map[*ssa.BasicBlock][]edge{}
	route := func(to *ssa.BasicBlock, e edge) {
		switch {
		case to == r.header:
			back = append(back, e)
		case r.blocks[to]:
			in[to] = append(in[to], e)
		default:
			exits[to] = append(exits[to], e)
		}
	}
	for _, n := range r.nodes {
		if n.b != nil {
			es := in[n.b]
			if len(es) == 0 {
				continue
			}
			delete(in, n.b)
			st := x.enter(fr, n.b, es)
			if st == nil {
				continue
			}
			x.runBlock(fr, n.b, st, route)
			continue
		}
		// inner loop
		es := in[n.l.header]
		delete(in, n.l.header)
		iter := 0
		symIter := 0
		for len(es) > 0 {
			iter++
			if iter > x.maxIter {
				unsup("loop in %s exceeds %d iterations", fr.fn, x.maxIter)
			}
			startFull := es[0].st.pc.full
			inner := map[*ssa.BasicBlock][]edge{n.l.header: es}
			ex, bk := x.runRegion(fr, n.l, inner)
			for _, b := range sortedBlocks(ex) {
				for _, e := range ex[b] {
					route(b, e)
				}
			}
			if len(bk) > 0 && bk[0].st.pc.full != startFull {
				symIter++
				if symIter >= 2 {
					var keep []edge
					for _, e := range bk {
						if x.feasible(e.st.pc) {
							keep = append(keep, e)
						} else {
							x.prunes++
						}
					}
					bk = keep
				}
				if symIter > 400 {
					unsup("symbolic loop in %s not unwound after %d iterations", fr.fn, symIter)
				}
			}
			es = bk
		}
		x.unwound += iter
	}
	return
}

func sortedBlocks(m map[*ssa.BasicBlock][]edge) []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	for b := range m {
		r = append(r, b)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Index < r[j].Index })
	return r
}

func (x *Exec) enter(fr *frame, b *ssa.BasicBlock, es []edge) *State {
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	var acc *State
	for _, e := range es {
		st := e.st
		if st.pc.full == x.c.F {
			continue
		}
		if len(phis) > 0 {
			pi := -1
			for k, p := range b.Preds {
				if p == e.pred {
					pi = k
				}
			}
			env := make([]Value, len(st.env))
			copy(env, st.env)
			for _, p := range phis {
				env[fr.fi.idx[p]] = x.val(fr, st, p.Edges[pi])
			}
			st = &State{pc: st.pc, heap: st.heap, env: env}
		}
		if acc == nil {
			acc = st
		} else {
			acc = x.mergeState(acc, st)
		}
	}
	return acc
}

func (x *Exec) runBlock(fr *frame, b *ssa.BasicBlock, st *State, route func(*ssa.BasicBlock, edge)) {
	env := make([]Value, len(st.env))
	copy(env, st.env)
	st = &State{pc: st.pc, heap: st.heap, env: env}
	x.blocksRun++
	for _, ins := range b.Instrs {
		x.steps++
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			route(b.Succs[0], edge{st, b})
			return
		case *ssa.If:
			cv := x.val(fr, st, i.Cond).(IntV)
			cond := x.simp(st.pc, cv.b[0])
			if cond == x.c.T {
				route(b.Succs[0], edge{st, b})
				return
			}
			if cond == x.c.F {
				route(b.Succs[1], edge{st, b})
				return
			}
			if x.paths {
				switch x.decide(st, []*B{cond, x.c.Not(cond)}) {
				case 0:
					route(b.Succs[0], edge{st, b})
				case 1:
					route(b.Succs[1], edge{st, b})
				}
				return
			}
			p1 := x.pcAdd(st.pc, cond)
			p2 := x.pcAdd(st.pc, x.c.Not(cond))
			h1 := st.heap.fork()
			h2 := st.heap.fork()
			if p1.full != x.c.F {
				route(b.Succs[0], edge{&State{p1, h1, st.env}, b})
			}
			if p2.full != x.c.F {
				route(b.Succs[1], edge{&State{p2, h2, st.env}, b})
			}
			return
		case *ssa.Return:
			var v Value
			switch len(i.Results) {
			case 0:
			case 1:
				v = x.val(fr, st, i.Results[0])
			default:
				t := TupleV{}
				for _, r := range i.Results {
					t.e = append(t.e, x.val(fr, st, r))
				}
				v = t
			}
			fr.rets = append(fr.rets, retState{&State{pc: st.pc, heap: st.heap}, v})
			return
		case *ssa.Panic:
			x.panicAt(st, x.c.T, "explicit panic", i.Pos(), fr)
			return
		default:
			if !x.instrGuarded(fr, st, ins) {
				return
			}
			if st.pc.full == x.c.F {
				return
			}
		}
	}
}

// instrGuarded runs one instruction; an unsupported construct on an
// infeasible path only ends that path.
func (x *Exec) instrGuarded(fr *frame, st *State, ins ssa.Instruction) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			u, isU := e.(unsupported)
			if !isU {
				if os.Getenv("VSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "at %s in %s: %v\n", x.pos(ins.Pos()), fr.fn, ins)
				}
				panic(e)
			}
			if st.pc.full == x.c.F || !x.feasible(st.pc) {
				x.prunes++
				ok = false
				return
			}
			if !strings.Contains(u.msg, " @ ") {
				u.msg = fmt.Sprintf("%s @ %s in %s", u.msg, x.pos(ins.Pos()), fr.fn)
			}
			panic(u)
		}
	}()
	return x.instr(fr, st, ins)
}

// panicAt records that the program panics under st.pc ∧ g and continues under ¬g.
func (x *Exec) panicAt(st *State, g *B, what string, p token.Pos, fr *frame) {
	g = x.simp(st.pc, g)
	if g == x.c.F {
		return
	}
	cond := x.c.And(st.pc.full, g)
	if cond != x.c.F {
		if x.initing {
			unsup("panic during initialisation: %s", what)
		}
		where := x.pos(p)
		if p == token.NoPos {
			where = fr.fn.String()
		}
		x.obls = append(x.obls, Obligation{Kind: "panic", Label: what, Pos: where, Cond: cond, Run: x.run})
	}
	st.pc = x.pcAdd(st.pc, x.c.Not(g))
}

func (x *Exec) val(fr *frame, st *State, v ssa.Value) Value {
	switch k := v.(type) {
	case *ssa.Const:
		return x.constant(k)
	case *ssa.Global:
		return PtrV{[]PtrAlt{{x.c.T, Ref{obj: x.global(k)}}}}
	case *ssa.Function:
		return FuncV{[]FuncAlt{{g: x.c.T, fn: k}}}
	case *ssa.Builtin:
		return FuncV{[]FuncAlt{{g: x.c.T, nat: "builtin:" + k.Name()}}}
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		unsup("value %s (%T)", v, v)
	}
	r := st.env[i]
	if r == nil {
		if t, ok := v.Type().(*types.Tuple); ok && t.Len() == 0 {
			return TupleV{}
		}
		unsup("register %s has no mergeable value", v.Name())
	}
	return r
}

func (x *Exec) global(g *ssa.Global) int {
	if o, ok := x.globals[g]; ok {
		return o
	}
	o := x.newObj()
	x.globals[g] = o
	x.objGlobal[o] = g
	return o
}

func (x *Exec) load(st *State, heap *Heap, r Ref, t types.Type) Value {
	v, ok := heap.get(r.obj)
	if !ok {
		if g := x.objGlobal[r.obj]; g != nil {
			pk := ""
			if g.Pkg != nil {
				pk = g.Pkg.Pkg.Path()
			}
			if !strings.HasPrefix(pk, x.mod) && !strings.HasPrefix(pk, x.harness) && (!initAllowed(pk) || x.badInit[pk]) {
				unsup("read of global %s whose package is not initialised", g)
			}
			v = x.zero(g.Type().(*types.Pointer).Elem())
			ok = true
		}
		if !ok {
			unsup("load from unknown object %d", r.obj)
		}
	}
	return x.getPath(v, r.path)
}

func (x *Exec) store(st *State, r Ref, nv Value) {
	v, ok := st.heap.get(r.obj)
	if !ok {
		if g := x.objGlobal[r.obj]; g != nil {
			v = x.zero(g.Type().(*types.Pointer).Elem())
			ok = true
		}
	}
	if !ok {
		unsup("store to unknown object")
	}
	st.heap = st.heap.set(r.obj, x.setPath(v, r.path, nv))
}

func (x *Exec) constant(k *ssa.Const) Value {
	c := x.c
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	if w, _, ok := intWidth(t); ok {
		if w == 1 && k.Value.Kind() == constant.Bool {
			return IntV{BV{c.Bool(constant.BoolVal(k.Value))}}
		}
		v := constant.ToInt(k.Value)
		bi, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			unsup("constant %s", k)
		}
		return IntV{c.ConstBig(bi, w)}
	}
	if s := floatSize(t); s != 0 {
		f, _ := constant.Float64Val(k.Value)
		if s == 32 {
			g, _ := constant.Float32Val(k.Value)
			f = float64(g)
		}
		return FloatV{c.LConst(ratF(f)), c.F, s}
	}
	if isString(t) {
		if k.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(k.Value)
			return litStr(string(rune(i)))
		}
		return litStr(constant.StringVal(k.Value))
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		unsup("constant of interface type %s", k)
	}
	unsup("constant %s of type %s", k, t)
	return nil
}

// addr appends selectors to every alternative of a pointer, recording nil dereferences.
func (x *Exec) ptrAlts(st *State, v Value, p token.Pos, fr *frame, what string) []PtrAlt {
	pv, ok := v.(PtrV)
	if !ok {
		unsup("pointer expected, got %T", v)
	}
	nilG := x.c.F
	var out []PtrAlt
	for _, a := range pv.alts {
		if a.r.obj == 0 {
			nilG = x.c.Or(nilG, a.g)
			continue
		}
		if g := x.simp(st.pc, a.g); g != x.c.F {
			out = append(out, PtrAlt{g, a.r})
		}
	}
	x.panicAt(st, nilG, "nil pointer dereference ("+what+")", p, fr)
	return out
}

func (x *Exec) boundsCheck(st *State, idx BV, n int, p token.Pos, fr *frame) {
	// idx is a 64-bit (sign-extended) value
	if v, ok := idx.constSigned(); ok {
		if v < 0 || v >= int64(n) {
			x.panicAt(st, x.c.T, fmt.Sprintf("index out of range [%d] with length %d", v, n), p, fr)
		}
		return
	}
	bad := x.c.Not(x.c.ULT(idx, x.c.Const(uint64(n), len(idx))))
	x.panicAt(st, bad, fmt.Sprintf("index out of range with length %d", n), p, fr)
}

func (x *Exec) idx64(v Value, t types.Type) BV {
	iv, ok := v.(IntV)
	if !ok {
		unsup("index of kind %T", v)
	}
	_, s, _ := intWidth(t)
	return x.c.Resize(iv.b, 64, s)
}

func (x *Exec) instr(fr *frame, st *State, ins ssa.Instruction) bool {
	c := x.c
	set := func(v ssa.Value, r Value) { st.env[fr.fi.idx[v]] = r }
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := x.newObj()
		st.heap = st.heap.set(o, x.zero(i.Type().(*types.Pointer).Elem()))
		set(i, PtrV{[]PtrAlt{{c.T, Ref{obj: o}}}})
	case *ssa.BinOp:
		set(i, x.binop(fr, st, i))
	case *ssa.UnOp:
		set(i, x.unop(fr, st, i))
	case *ssa.ChangeType:
		set(i, x.val(fr, st, i.X))
	case *ssa.Convert:
		set(i, x.convert(st, x.val(fr, st, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		set(i, x.convert(st, x.val(fr, st, i.X), i.X.Type(), i.Type()))
	case *ssa.ChangeInterface:
		set(i, x.val(fr, st, i.X))
	case *ssa.MakeInterface:
		set(i, IfaceV{[]IfaceAlt{{c.T, i.X.Type(), x.val(fr, st, i.X)}}})
	case *ssa.Extract:
		set(i, x.val(fr, st, i.Tuple).(TupleV).e[i.Index])
	case *ssa.Field:
		set(i, x.val(fr, st, i.X).(StructV).f[i.Field])
	case *ssa.FieldAddr:
		alts := x.ptrAlts(st, x.val(fr, st, i.X), i.Pos(), fr, "field")
		var out []PtrAlt
		for _, a := range alts {
			out = append(out, PtrAlt{a.g, Ref{a.r.obj, appendSel(a.r.path, Sel{i: i.Field})}})
		}
		if len(out) == 0 {
			return false
		}
		set(i, PtrV{out})
	case *ssa.IndexAddr:
		idx := x.idx64(x.val(fr, st, i.Index), i.Index.Type())
		base := x.val(fr, st, i.X)
		var out []PtrAlt
		switch bv := base.(type) {
		case SliceV:
			for _, a := range bv.alts {
				g := x.simp(st.pc, a.g)
				if g == c.F {
					continue
				}
				if cv, ok := idx.constSigned(); ok {
					if cv < 0 || cv >= int64(a.len) {
						x.panicAt(st, g, fmt.Sprintf("index out of range [%d] with length %d", cv, a.len), i.Pos(), fr)
						continue
					}
					out = append(out, PtrAlt{g, Ref{a.r.obj, appendSel(a.r.path, Sel{i: a.off + int(cv)})}})
					continue
				}
				bad := c.Not(c.ULT(idx, c.Const(uint64(a.len), 64)))
				x.panicAt(st, c.And(g, bad), fmt.Sprintf("index out of range with length %d", a.len), i.Pos(), fr)
				if a.len == 0 {
					continue
				}
				out = append(out, PtrAlt{g, Ref{a.r.obj, appendSel(a.r.path, x.symSel(idx, a.off, a.len))}})
			}
		case PtrV:
			n := int(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			x.boundsCheck(st, idx, n, i.Pos(), fr)
			for _, a := range x.ptrAlts(st, base, i.Pos(), fr, "array") {
				if cv, ok := idx.constSigned(); ok {
					if cv >= 0 && cv < int64(n) {
						out = append(out, PtrAlt{a.g, Ref{a.r.obj, appendSel(a.r.path, Sel{i: int(cv)})}})
					}
					continue
				}
				out = append(out, PtrAlt{a.g, Ref{a.r.obj, appendSel(a.r.path, x.symSel(idx, 0, n))}})
			}
		default:
			unsup("IndexAddr on %T", base)
		}
		if len(out) == 0 || st.pc.full == c.F {
			return false
		}
		set(i, PtrV{out})
	case *ssa.Index:
		base := x.val(fr, st, i.X)
		idx := x.idx64(x.val(fr, st, i.Index), i.Index.Type())
		switch bv := base.(type) {
		case ArrayV:
			x.boundsCheck(st, idx, len(bv.e), i.Pos(), fr)
			if st.pc.full == c.F {
				return false
			}
			if cv, ok := idx.constSigned(); ok {
				set(i, bv.e[cv])
			} else {
				s := x.symSel(idx, 0, len(bv.e))
				set(i, x.getPath(bv, []Sel{s}))
			}
		case *Rope:
			r := x.strIndex(fr, st, bv, idx, i.Pos())
			if r == nil {
				return false
			}
			set(i, r)
		default:
			unsup("Index on %T", base)
		}
	case *ssa.Lookup:
		base := x.val(fr, st, i.X)
		if rp, ok := base.(*Rope); ok {
			idx := x.idx64(x.val(fr, st, i.Index), i.Index.Type())
			r := x.strIndex(fr, st, rp, idx, i.Pos())
			if r == nil {
				return false
			}
			set(i, r)
			break
		}
		set(i, x.mapLookup(st, base, x.val(fr, st, i.Index), i.X.Type(), i.CommaOk))
	case *ssa.MapUpdate:
		x.mapUpdate(fr, st, x.val(fr, st, i.Map), x.val(fr, st, i.Key), x.val(fr, st, i.Value), i.Pos())
	case *ssa.MakeMap:
		o := x.newObj()
		m := i.Type().Underlying().(*types.Map)
		st.heap = st.heap.set(o, &MapObj{kt: m.Key(), vt: m.Elem()})
		set(i, MapV{[]MapAlt{{c.T, o}}})
	case *ssa.MakeSlice:
		n, ok1 := x.val(fr, st, i.Len).(IntV).b.constSigned()
		cp, ok2 := x.val(fr, st, i.Cap).(IntV).b.constSigned()
		if !ok1 || !ok2 {
			return x.makeSym(fr, st, i)
		}
		if n < 0 || n > 1<<16 || cp < n {
			x.panicAt(st, c.T, "makeslice: len out of range", i.Pos(), fr)
			return false
		}
		el := i.Type().Underlying().(*types.Slice).Elem()
		o := x.newObj()
		a := ArrayV{make([]Value, cp)}
		if cp > 0 {
			z := x.zero(el)
			for k := range a.e {
				a.e[k] = z
			}
		}
		st.heap = st.heap.set(o, a)
		set(i, SliceV{[]SliceAlt{{g: c.T, r: Ref{obj: o}, len: int(n), cap: int(cp)}}})
	case *ssa.Slice:
		r := x.slice(fr, st, i)
		if r == nil {
			return false
		}
		set(i, r)
	case *ssa.SliceToArrayPointer:
		n := int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		sv := x.val(fr, st, i.X).(SliceV)
		var out []PtrAlt
		for _, a := range sv.alts {
			g := x.simp(st.pc, a.g)
			if a.len < n {
				x.panicAt(st, g, "slice to array conversion out of range", i.Pos(), fr)
				continue
			}
			if g == c.F {
				continue
			}
			if n == 0 || a.r.obj == 0 {
				unsup("slice to array pointer of length 0")
			}
			v, _ := st.heap.get(a.r.obj)
			arr := x.getPath(v, a.r.path).(ArrayV)
			if a.off != 0 || len(arr.e) != n {
				// model as a copy: only valid for reads
				o := x.newObj()
				st.heap = st.heap.set(o, ArrayV{arr.e[a.off : a.off+n]})
				x.note("slice-to-array conversion modelled as a copy")
				out = append(out, PtrAlt{g, Ref{obj: o}})
				continue
			}
			out = append(out, PtrAlt{g, a.r})
		}
		if len(out) == 0 {
			return false
		}
		set(i, PtrV{out})
	case *ssa.Store:
		v := x.val(fr, st, i.Val)
		alts := x.ptrAlts(st, x.val(fr, st, i.Addr), i.Pos(), fr, "store")
		for _, a := range alts {
			x.noteWrite(st, a.g, a.r, i.Pos())
			if len(alts) == 1 {
				x.store(st, a.r, v)
				break
			}
			old := x.load(st, st.heap, a.r, nil)
			x.store(st, a.r, x.merge(a.g, v, old))
		}
	case *ssa.TypeAssert:
		r := x.typeAssert(fr, st, i)
		if r == nil {
			return false
		}
		set(i, r)
	case *ssa.MakeClosure:
		var b []Value
		for _, y := range i.Bindings {
			b = append(b, x.val(fr, st, y))
		}
		set(i, FuncV{[]FuncAlt{{g: c.T, fn: i.Fn.(*ssa.Function), bind: b}}})
	case *ssa.Call:
		v, ok := x.call(fr, st, &i.Call, i)
		if !ok {
			return false
		}
		if v != nil {
			set(i, v)
		} else {
			set(i, TupleV{})
		}
	case *ssa.Range:
		set(i, x.mkRange(st, x.val(fr, st, i.X)))
	case *ssa.Next:
		set(i, x.next(st, x.val(fr, st, i.Iter).(*IterV), i))
	case *ssa.Defer:
		var fv Value
		if !i.Call.IsInvoke() {
			fv = x.val(fr, st, i.Call.Value)
		} else {
			unsup("deferred interface call")
		}
		var args []Value
		for _, a := range i.Call.Args {
			args = append(args, x.val(fr, st, a))
		}
		if i.Block() != fr.fn.Blocks[0] {
			unsup("conditional defer")
		}
		fr.defers = append(fr.defers, deferred{&i.Call, fv, args})
	case *ssa.RunDefers:
		for k := len(fr.defers) - 1; k >= 0; k-- {
			d := fr.defers[k]
			if _, ok := x.callValue(fr, st, d.fn, d.args, d.call, i.Pos()); !ok {
				return false
			}
		}
	default:
		unsup("instruction %T", ins)
	}
	return true
}

// smallCases lists the values an integer can take, when they are few.
func (x *Exec) smallCases(st *State, b BV) []int {
	c := x.c
	free := 0
	for k, t := range b {
		if t.k == kConst {
			continue
		}
		if k > 6 {
			return nil
		}
		free++
	}
	if free > 6 {
		return nil
	}
	var r []int
	for v := 0; v < 128; v++ {
		if x.simp(st.pc, c.BVEq(b, c.Const(uint64(v), len(b)))) != c.F {
			r = append(r, v)
		}
	}
	return r
}

// makeSym is make with a length or capacity that depends on the input.
func (x *Exec) makeSym(fr *frame, st *State, i *ssa.MakeSlice) bool {
	c := x.c
	nb, cb := x.val(fr, st, i.Len).(IntV).b, x.val(fr, st, i.Cap).(IntV).b
	ns, cs := x.smallCases(st, nb), x.smallCases(st, cb)
	if ns == nil || cs == nil {
		unsup("make with symbolic length")
	}
	z := x.zero(i.Type().Underlying().(*types.Slice).Elem())
	var out SliceV
	if len(ns) == 1 && ns[0] == 0 && len(cs) > 0 {
		// An empty slice to be appended to: the capacity is only a hint, so one
		// array of the largest one serves. (cap() of the result is not exact.)
		x.note("capacity of an empty slice taken at its largest")
		cs = cs[len(cs)-1:]
		cb = c.Const(uint64(cs[0]), len(cb))
	}
	for _, n := range ns {
		ng := c.BVEq(nb, c.Const(uint64(n), len(nb)))
		for _, cp := range cs {
			g := x.simp(st.pc, c.And(ng, c.BVEq(cb, c.Const(uint64(cp), len(cb)))))
			if g == c.F {
				continue
			}
			if cp < n {
				x.panicAt(st, g, "makeslice: len out of range", i.Pos(), fr)
				continue
			}
			a := ArrayV{make([]Value, cp)}
			for k := range a.e {
				a.e[k] = z
			}
			o := x.newObj()
			st.heap = st.heap.set(o, a)
			out.alts = append(out.alts, SliceAlt{g: g, r: Ref{obj: o}, len: n, cap: cp})
		}
	}
	if len(out.alts) == 0 {
		return false
	}
	st.env[fr.fi.idx[i]] = out
	return true
}

func appendSel(p []Sel, s Sel) []Sel {
	r := make([]Sel, len(p)+1)
	copy(r, p)
	r[len(p)] = s
	return r
}

func (x *Exec) symSel(idx BV, off, n int) Sel {
	nb := 1
	for 1<<uint(nb) < n {
		nb++
	}
	return Sel{i: off, sym: idx[:nb], n: n}
}

// noteWrite records stores into global variables (after initialisation).
func (x *Exec) noteWrite(st *State, g *B, r Ref, p token.Pos) {
	if x.initing {
		return
	}
	if gl := x.objGlobal[r.obj]; gl != nil {
		if gl.Pkg != nil && strings.HasPrefix(gl.Pkg.Pkg.Path(), x.harness) {
			return
		}
		x.gwrites = append(x.gwrites, gwrite{x.c.And(st.pc.full, g), gl.String(), x.pos(p)})
	}
}

func (x *Exec) strIndex(fr *frame, st *State, r *Rope, idx BV, p token.Pos) Value {
	c := x.c
	bs, ok := r.bytes(c)
	if !ok {
		if alts, ok := r.expand(c, 256); ok {
			// alternatives of different length
			var res Value
			for k := len(alts) - 1; k >= 0; k-- {
				ab, ok := alts[k].r.bytes(c)
				if !ok {
					unsup("index into formatted string")
				}
				bad := c.Not(c.ULT(idx, c.Const(uint64(len(ab)), 64)))
				x.panicAt(st, c.And(alts[k].g, bad), "string index out of range", p, fr)
				if len(ab) == 0 {
					continue
				}
				var v Value
				if cv, ok := idx.constSigned(); ok {
					if cv < 0 || cv >= int64(len(ab)) {
						continue
					}
					v = IntV{ab[cv]}
				} else {
					s := x.symSel(idx, 0, len(ab))
					v = IntV{c.Select(ab, s.sym)}
				}
				if res == nil {
					res = v
				} else {
					res = x.merge(alts[k].g, v, res)
				}
			}
			return res
		}
		unsup("index into formatted string")
	}
	x.boundsCheck(st, idx, len(bs), p, fr)
	if st.pc.full == c.F || len(bs) == 0 {
		return nil
	}
	if cv, ok := idx.constSigned(); ok {
		return IntV{bs[cv]}
	}
	s := x.symSel(idx, 0, len(bs))
	return IntV{c.Select(bs, s.sym)}
}

// constAlts enumerates the possible values of a bounded integer term.
func (x *Exec) intChoices(st *State, v BV, max int) []struct {
	g *B
	n int
} {
	var out []struct {
		g *B
		n int
	}
	if cv, ok := v.constSigned(); ok {
		out = append(out, struct {
			g *B
			n int
		}{x.c.T, int(cv)})
		return out
	}
	for k := 0; k <= max; k++ {
		g := x.simp(st.pc, x.c.BVEq(v, x.c.Const(uint64(k), len(v))))
		if g != x.c.F {
			out = append(out, struct {
				g *B
				n int
			}{g, k})
		}
	}
	return out
}

func (x *Exec) slice(fr *frame, st *State, i *ssa.Slice) Value {
	c := x.c
	base := x.val(fr, st, i.X)
	get := func(v ssa.Value) BV {
		if v == nil {
			return nil
		}
		return x.idx64(x.val(fr, st, v), v.Type())
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	if rp, ok := base.(*Rope); ok {
		return x.strSlice(fr, st, rp, lo, hi, i.Pos())
	}
	type src struct {
		g          *B
		r          Ref
		off, l, cp int
	}
	var srcs []src
	switch bv := base.(type) {
	case SliceV:
		for _, a := range bv.alts {
			if g := x.simp(st.pc, a.g); g != c.F {
				srcs = append(srcs, src{g, a.r, a.off, a.len, a.cap})
			}
		}
	case PtrV:
		n := int(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		for _, a := range x.ptrAlts(st, base, i.Pos(), fr, "slice") {
			srcs = append(srcs, src{a.g, a.r, 0, n, n})
		}
	default:
		unsup("slice of %T", base)
	}
	var out SliceV
	for _, s := range srcs {
		los := x.intChoices(st, orConst(c, lo, 0), s.cp)
		his := x.intChoices(st, orConst(c, hi, s.l), s.cp)
		mxs := x.intChoices(st, orConst(c, mx, s.cp), s.cp)
		okG := c.F
		for _, l := range los {
			for _, h := range his {
				for _, m := range mxs {
					g := c.And(s.g, l.g, h.g, m.g)
					if g == c.F {
						continue
					}
					if l.n < 0 || l.n > h.n || h.n > m.n || m.n > s.cp {
						continue
					}
					okG = c.Or(okG, g)
					out.alts = append(out.alts, SliceAlt{g: g, r: s.r, off: s.off + l.n, len: h.n - l.n, cap: m.n - l.n})
				}
			}
		}
		x.panicAt(st, c.And(s.g, c.Not(okG)), fmt.Sprintf("slice bounds out of range with capacity %d", s.cp), i.Pos(), fr)
	}
	if len(out.alts) == 0 || st.pc.full == c.F {
		return nil
	}
	return out
}

func orConst(c *Ctx, v BV, d int) BV {
	if v == nil {
		return c.Const(uint64(d), 64)
	}
	return v
}

func (x *Exec) strSlice(fr *frame, st *State, r *Rope, lo, hi BV, p token.Pos) Value {
	c := x.c
	var alts []RopeAlt
	whole, ok := r.bytes(c) // one length whatever the choices
	if ok {
		alts = []RopeAlt{{c.T, r}}
	} else if alts, ok = r.expand(c, 512); !ok {
		unsup("slice of complex string")
	}
	var res *Rope
	for k := len(alts) - 1; k >= 0; k-- {
		bs, ok := whole, true
		if bs == nil {
			bs, ok = alts[k].r.bytes(c)
		}
		if !ok {
			unsup("slice of formatted string")
		}
		n := len(bs)
		okG := c.F
		for _, l := range x.intChoices(st, orConst(c, lo, 0), n) {
			for _, h := range x.intChoices(st, orConst(c, hi, n), n) {
				g := c.And(l.g, h.g)
				if g == c.F || l.n < 0 || l.n > h.n || h.n > n {
					continue
				}
				okG = c.Or(okG, g)
				var parts []*Rope
				for _, b := range bs[l.n:h.n] {
					parts = append(parts, byteRope(b))
				}
				v := concatRope(parts...)
				if res == nil {
					res = v
				} else {
					res = x.mergeRope(c.And(alts[k].g, g), v, res)
				}
			}
		}
		x.panicAt(st, c.And(alts[k].g, c.Not(okG)), "string slice bounds out of range", p, fr)
	}
	if res == nil || st.pc.full == c.F {
		return nil
	}
	return res
}

func (x *Exec) typeAssert(fr *frame, st *State, i *ssa.TypeAssert) Value {
	c := x.c
	v := x.val(fr, st, i.X).(IfaceV)
	okG := c.F
	var res Value
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	for _, a := range v.alts {
		g := x.simp(st.pc, a.g)
		if g == c.F || a.t == nil {
			continue
		}
		match := false
		if toIface {
			match = types.AssertableTo(i.AssertedType.Underlying().(*types.Interface), a.t) && types.Implements(a.t, i.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(a.t, i.AssertedType)
		}
		if !match {
			continue
		}
		okG = c.Or(okG, g)
		var w Value = a.v
		if toIface {
			w = IfaceV{[]IfaceAlt{{c.T, a.t, a.v}}}
		}
		if res == nil {
			res = w
		} else {
			res = x.merge(g, w, res)
		}
	}
	if i.CommaOk {
		if res == nil {
			res = x.zero(i.AssertedType)
		} else if okG != c.T {
			res = x.merge(okG, res, x.zero(i.AssertedType))
		}
		return TupleV{[]Value{res, IntV{BV{okG}}}}
	}
	x.panicAt(st, c.Not(okG), "interface conversion", i.Pos(), fr)
	if res == nil || st.pc.full == c.F {
		return nil
	}
	return res
}
