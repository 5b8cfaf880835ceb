package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/twuillemin/modes"

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

type runInput struct {
	Harness string               `json:"harness"`
	Runs    []map[string]float64 `json:"runs"`
	Bits    []map[string]uint64  `json:"bits"`
}

// nativeRun is the outcome of one execution of the compiled harness.
type nativeRun struct {
	Obs     []nativeObs `json:"obs"`
	Fails   []string    `json:"fails"`
	Known   []string    `json:"known"`
	Assume  bool        `json:"assume"`
	Panic   string      `json:"panic"`
	Reached []string    `json:"reached"`
}
type nativeObs struct {
	L string `json:"l"`
	K string `json:"k"`
	I int64  `json:"i"`
	F string `json:"f"`
	S string `json:"s"`
}

type violation struct {
	Harness, Kind, Label, Pos string
	Known                     string
	Replay                    string
	Panic                     string
	Inputs                    map[string]string
}

type hres struct {
	name       string
	x          *Exec
	err        string
	viol       []violation
	known      []violation
	undecided  []string
	spurious   []string
	obls       int
	discharged int
	solver     map[string]*Solver
	validated  int
	mismatch   []string
	reached    []string
	vacuous    []string
	samples    []map[string]interface{}
	encode     time.Duration
	second     int
	wall       time.Duration
	terms      int
}

type knownFile struct {
	Findings []struct {
		ID       string `json:"id"`
		Property string `json:"property"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func profile() {
	if f := os.Getenv("VSYM_PROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		go func() {
			time.Sleep(60 * time.Second)
			pprof.StopCPUProfile()
			o.Close()
		}()
	}
}

func main() {
	profile()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsym check <property> | replay <file>")
		os.Exit(2)
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("REPO_DIR"); v != "" {
		repoDir = v
	}
	debug.SetGCPercent(200)
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3:]))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	}
	os.Exit(2)
}

func goEnv() []string {
	env := append([]string{}, os.Environ()...)
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0")
}

type evidence struct {
	Property   string                 `json:"property"`
	Tier       string                 `json:"tier"`
	Seed       int                    `json:"seed"`
	Level      string                 `json:"level"`
	Coverage   map[string]interface{} `json:"coverage"`
	Assum      []string               `json:"assumptions"`
	Wall       float64                `json:"wall_s"`
	Violations int                    `json:"violations"`
}

func harnessPkg(prop string) string { return strings.ToLower(prop) }

func check(prop string, only []string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := &evidence{Property: prop, Tier: tier, Seed: seed, Level: "model_checking", Coverage: map[string]interface{}{
		"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []interface{}{}}}
	finish := func() {
		ev.Wall = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
	}
	undecidedAll := func(why string) int {
		fmt.Printf("UNDECIDED property=%s %s\n", prop, why)
		ev.Coverage["undecided"] = []string{why}
		ev.Assum = append(ev.Assum, "nothing was decided on this run: "+why)
		finish()
		return 0
	}
	// a fatal error of the engine must not look like a verdict
	defer func() {
		if e := recover(); e != nil {
			undecidedAll(fmt.Sprintf("engine error: %v", e))
			if os.Getenv("VSYM_DEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	hdir := filepath.Join(verifDir, "harness")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: hdir, Env: goEnv()}
	pk := "./" + harnessPkg(prop)
	pkgs, err := packages.Load(cfg, pk)
	if err != nil {
		return undecidedAll("loading: " + err.Error())
	}
	var perr []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			perr = append(perr, e.Error())
		}
	})
	if len(perr) > 0 {
		sort.Strings(perr)
		return undecidedAll("the code does not load: " + perr[0])
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	hp := spkgs[0]
	var names []string
	for n, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H") && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(only) > 0 {
		var k []string
		for _, n := range names {
			for _, o := range only {
				if n == o {
					k = append(k, n)
				}
			}
		}
		names = k
	}
	bounds := ""
	if c, ok := hp.Members["Bounds"].(*ssa.NamedConst); ok {
		bounds, _ = strconv.Unquote(c.Value.Value.ExactString())
	}
	shards := 1
	if c, ok := hp.Members["Shards"].(*ssa.NamedConst); ok {
		shards, _ = strconv.Atoi(c.Value.Value.ExactString())
	}
	loadT := time.Since(t0)

	// the compiled counterpart used for validation and replay
	nat, err := buildNative(prop, names)
	if err != nil {
		return undecidedAll("native build: " + err.Error())
	}
	defer nat.cleanup()

	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		json.Unmarshal(b, &kf)
	}
	knownWhat := map[string]string{}
	for _, f := range kf.Findings {
		if f.Property == prop {
			knownWhat[f.ID] = f.What
		}
	}

	deadline := t0.Add(780 * time.Second)
	qto := 60 * time.Second
	if tier == "thorough" {
		deadline = t0.Add(3 * time.Hour)
		qto = 600 * time.Second
	}
	res := make([]*hres, len(names)*shards)
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	if v := os.Getenv("VSYM_WORKERS"); v != "" {
		nw, _ = strconv.Atoi(v)
	}
	sem := make(chan bool, nw)
	for i := range res {
		n := names[i/shards]
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if expired(deadline) {
				res[i] = &hres{name: n, err: "time budget exhausted before this harness"}
				return
			}
			res[i] = runHarness(prop, prog, hp, hp.Func(n), nat, tier, seed, knownWhat, qto, deadline, i%shards, shards)
			if os.Getenv("VSYM_V") != "" {
				r := res[i]
				fmt.Printf("  %-28s obl=%d discharged=%d viol=%d known=%d undec=%d enc=%.2fs wall=%.2fs val=%d mism=%d vac=%v terms=%d err=%s\n", r.name, r.obls, r.discharged, len(r.viol), len(r.known), len(r.undecided), r.encode.Seconds(), r.wall.Seconds(), r.validated, len(r.mismatch), r.vacuous, r.terms, r.err)
			}
		}(i, n)
	}
	wg.Wait()

	// aggregate
	var states, trans, traces, asserts, obls, trivial, disch, prunes int
	fns := map[string]bool{}
	notes := map[string]int{}
	var undec, vac, mism, reached, spurious []string
	var viols, knowns []violation
	queries := map[string]map[string]interface{}{}
	second := 0
	var samples []interface{}
	perH := []interface{}{}
	for _, r := range res {
		if r.x != nil {
			states += r.x.blocksRun
			trans += r.x.steps
			asserts += r.x.nAsserts
			trivial += r.x.trivial
			prunes += r.x.prunes
			for f := range r.x.entered {
				fns[strings.ReplaceAll(f, modPath+"/", "")] = true
			}
			for k, v := range r.x.notes {
				notes[k] += v
			}
			for k, v := range r.x.c.notes {
				notes[k] += v
			}
			tot := 0
			for _, w := range r.x.inputs {
				tot += w
			}
			perH = append(perH, map[string]interface{}{"harness": r.name, "symbolic_input_bits": tot, "symbolic_reals": len(r.x.realIn), "assertions": r.x.nAsserts, "obligations_sent": r.obls, "discharged": r.discharged, "encode_s": round3(r.encode.Seconds()), "wall_s": round3(r.wall.Seconds()), "boolean_terms": r.terms, "loop_iterations_unwound": r.x.unwound, "paths": r.x.run + 1})
		}
		obls += r.obls
		disch += r.discharged
		traces += r.validated
		second += r.second
		if r.err != "" {
			undec = append(undec, r.name+": "+r.err)
		}
		for _, u := range r.undecided {
			undec = append(undec, r.name+": "+u)
		}
		for _, u := range r.vacuous {
			// the workers of a divided harness share its witnesses
			shared := false
			for _, o := range res {
				if o.name == r.name && o != r {
					for _, l := range o.reached {
						shared = shared || l == u || u == noWitness
					}
				}
			}
			if !shared {
				vac = append(vac, r.name+": "+u)
			}
		}
		for _, u := range r.mismatch {
			mism = append(mism, r.name+": "+u)
		}
		for _, u := range r.spurious {
			spurious = append(spurious, r.name+": "+u)
		}
		reached = append(reached, r.reached...)
		viols = append(viols, r.viol...)
		knowns = append(knowns, r.known...)
		for n, s := range r.solver {
			q := queries[n]
			if q == nil {
				q = map[string]interface{}{"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "closed_by_gf2_elimination": 0, "unsat_with_numbers_relaxed_to_reals": 0, "unsat_after_lemmas": 0, "time_s": 0.0}
				queries[n] = q
			}
			q["queries"] = q["queries"].(int) + s.Queries
			q["unsat"] = q["unsat"].(int) + s.Unsat
			q["sat"] = q["sat"].(int) + s.Sat
			q["unknown"] = q["unknown"].(int) + s.Unknown
			q["closed_by_gf2_elimination"] = q["closed_by_gf2_elimination"].(int) + s.Presolved
			q["unsat_with_numbers_relaxed_to_reals"] = q["unsat_with_numbers_relaxed_to_reals"].(int) + s.Relaxed
			q["unsat_after_lemmas"] = q["unsat_after_lemmas"].(int) + s.Refined
			q["time_s"] = round3(q["time_s"].(float64) + s.Time.Seconds())
		}
		for _, s := range r.samples {
			if len(samples) < 12 {
				samples = append(samples, s)
			}
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	rc := 0
	seenK := map[string]bool{}
	for _, k := range knowns {
		if !seenK[k.Known] {
			seenK[k.Known] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k.Known, knownWhat[k.Known])
		}
	}
	seenV := map[string]bool{}
	shown := 0
	for _, v := range viols {
		key := v.Label + v.Harness
		if seenV[key] {
			continue
		}
		seenV[key] = true
		rc = 1
		if shown < 8 {
			shown++
			fmt.Printf("%s %s: %s (%s) inputs %v %s\n", v.Harness, v.Kind, v.Label, v.Pos, v.Inputs, v.Panic)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.Replay)
		}
	}
	for _, u := range undec {
		fmt.Printf("UNDECIDED property=%s %s\n", prop, u)
	}
	for _, u := range vac {
		fmt.Printf("VACUOUS property=%s %s\n", prop, u)
	}
	for _, u := range mism {
		fmt.Printf("MISMATCH property=%s %s\n", prop, u)
	}
	for _, u := range spurious {
		fmt.Printf("SPURIOUS property=%s %s\n", prop, u)
	}
	ev.Violations = len(seenV)
	ev.Coverage = map[string]interface{}{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": traces,
		"samples":                       samples,
		"states_meaning":                "symbolic program states (basic-block entries after merging); each stands for every input satisfying its path condition",
		"transitions_meaning":           "SSA instructions of the real code and of the harness executed symbolically",
		"functions_encoded":             fl,
		"functions_encoded_count":       len(fl),
		"bounds":                        bounds,
		"assertions_evaluated":          asserts,
		"assertions_closed_by_term_normalisation": trivial,
		"obligations_sent_to_solver":              obls,
		"obligations_discharged_unsat":            disch,
		"infeasible_branches_pruned":              prunes,
		"solver":                                  queries,
		"second_solver_agreements":                second,
		"reachability_witnesses":                  len(reached),
		"vacuous":                                 vac,
		"undecided":                               undec,
		"unreproduced_candidates":                 spurious,
		"validation_mismatches":                   mism,
		"model_notes":                             notes,
		"harnesses":                               perH,
		"load_s":                                  round3(loadT.Seconds()),
		"known_findings":                          len(seenK),
	}
	ev.Assum = []string{
		"the SSA form built by golang.org/x/tools/go/ssa and the engine's translation of it represent the compiled program (cross-checked on this run by executing the compiled harness on sampled and solver-generated inputs)",
		"fmt, errors, strings and math functions are replaced by models of their documented behaviour; elementary functions are function symbols with range/monotonicity facts",
		"floating point is modelled as exact rational arithmetic plus a bounded rounding error per operation; negative zero is not distinguished",
		"everything outside the stated bounds is not covered",
	}
	if len(mism) > 0 || len(undec) > 0 {
		ev.Assum = append(ev.Assum, "this run left parts undecided; see coverage.undecided and coverage.validation_mismatches")
	}
	finish()
	fmt.Printf("%s %s: %d harnesses, %d assertions, %d obligations, %d discharged, %d violations, %d known, %d undecided, %d validated runs, %.1fs\n",
		prop, tier, len(names), asserts, obls, disch, len(seenV), len(seenK), len(undec), traces, time.Since(t0).Seconds())
	return rc
}

func round3(f float64) float64 { return math.Round(f*1000) / 1000 }

// ---------------------------------------------------------------- native side

type native struct {
	bin string
	dir string
	mu  sync.Mutex
}

func (n *native) cleanup() { os.RemoveAll(n.dir) }

func buildNative(prop string, names []string) (*native, error) {
	base := filepath.Join(verifDir, "build")
	os.MkdirAll(base, 0o755)
	dir, err := os.MkdirTemp(base, prop+"-")
	if err != nil {
		return nil, err
	}
	var sb strings.Builder
	pk := harnessPkg(prop)
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"vharness/sym\"\n\th \"vharness/%s\"\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", pk)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	mainf := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mainf, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	hdir := filepath.Join(verifDir, "harness")
	ov := map[string]map[string]string{"Replace": {filepath.Join(hdir, "zz_native", "main.go"): mainf}}
	b, _ := json.Marshal(ov)
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	n := &native{dir: dir, bin: filepath.Join(dir, "native")}
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", n.bin, "./zz_native")
	cmd.Dir = hdir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.cleanup()
		return nil, fmt.Errorf("%v: %s", err, out)
	}
	return n, nil
}

func (n *native) run(harness string, ins []map[string]string, tier string) ([]nativeRun, error) {
	type req struct {
		Harness  string              `json:"harness"`
		Thorough bool                `json:"thorough"`
		Runs     []map[string]string `json:"runs"`
	}
	b, _ := json.Marshal(req{harness, tier == "thorough", ins})
	cmd := exec.Command(n.bin)
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return nil, fmt.Errorf("%v: %s", err, firstLine(errb.String()))
		}
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return nil, fmt.Errorf("native run timed out")
	}
	var rs []nativeRun
	if err := json.Unmarshal(out.Bytes(), &rs); err != nil {
		return nil, err
	}
	return rs, nil
}

// inputsOf renders an assignment as values of the declared inputs.
func (x *Exec) inputsOf(as *Assign) map[string]string {
	r := map[string]string{}
	for n, w := range x.inputs {
		var v uint64
		for i := 0; i < w; i++ {
			if as.b[fmt.Sprintf("%s.%d", n, i)] {
				v |= 1 << uint(i)
			}
		}
		if v != 0 {
			r[n] = strconv.FormatUint(v, 10)
		}
	}
	for n := range x.realIn {
		q := as.r[n]
		if q == nil {
			q = new(big.Rat)
		}
		f, _ := q.Float64()
		r[n] = strconv.FormatFloat(f, 'g', -1, 64)
	}
	return r
}

// compact joins byte inputs for display.
func compact(in map[string]string) map[string]string {
	out := map[string]string{}
	arr := map[string]map[int]string{}
	for k, v := range in {
		if i := strings.IndexByte(k, '['); i > 0 {
			n, _ := strconv.Atoi(strings.TrimSuffix(k[i+1:], "]"))
			if arr[k[:i]] == nil {
				arr[k[:i]] = map[int]string{}
			}
			arr[k[:i]][n] = v
			continue
		}
		out[k] = v
	}
	for k, m := range arr {
		mx := 0
		for i := range m {
			if i > mx {
				mx = i
			}
		}
		s := ""
		for i := 0; i <= mx; i++ {
			v, _ := strconv.Atoi(m[i])
			s += fmt.Sprintf("%02x", v)
		}
		out[k] = s
	}
	return out
}

func replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property, Harness, Label string
		Inputs                   map[string]string
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	n, err := buildNative(r.Property, []string{r.Harness})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer n.cleanup()
	rs, err := n.run(r.Harness, []map[string]string{r.Inputs}, "thorough")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	o, _ := json.MarshalIndent(rs[0], "", " ")
	fmt.Println(string(o))
	if len(rs[0].Fails) > 0 || rs[0].Panic != "" {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- one harness

const noWitness = "no reachability witness declared"

// firstViolation is when a violation was first confirmed (0 = none yet); the
// rest of the run is then given a minute, as the verdict is settled.
var firstViolation atomic.Int64

func expired(deadline time.Time) bool {
	if v := firstViolation.Load(); v != 0 && time.Since(time.Unix(0, v)) > time.Minute {
		return true
	}
	return time.Now().After(deadline)
}

func runHarness(prop string, prog *ssa.Program, hp *ssa.Package, fn *ssa.Function, nat *native, tier string, seed int, knownWhat map[string]string, qto time.Duration, deadline time.Time, shard, shards int) (r *hres) {
	r = &hres{name: fn.Name(), solver: map[string]*Solver{}}
	t0 := time.Now()
	defer func() { r.wall = time.Since(t0) }()
	prim, alt := "z3-new", "z3"
	sv := func(n string) *Solver {
		if s := r.solver[n]; s != nil {
			return s
		}
		s := NewSolver(n, qto)
		s.Relax = r.x != nil && r.x.paths
		r.solver[n] = s
		return s
	}
	defer func() {
		for _, s := range r.solver {
			s.Close()
		}
	}()
	x := NewExec(prog, modPath, "vharness", sv(prim))
	x.thorough = tier == "thorough"
	x.shard, x.shards = shard, shards
	x.deadline = deadline
	r.x = x
	failed := func() (err string) {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsupported); ok {
					err = "not encodable: " + u.msg
					return
				}
				if os.Getenv("VSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, string(debug.Stack()))
				}
				err = fmt.Sprintf("engine error: %v", e)
			}
		}()
		heap := newHeap()
		x.initing = true
		pc := x.rootPC()
		_, pc2, h2 := x.callFn(hp.Func("init"), nil, nil, pc, heap)
		x.initing = false
		if pc2 == nil {
			return "package initialisation does not terminate"
		}
		x.entered = map[string]int{}
		x.steps, x.blocksRun, x.unwound = 0, 0, 0
		obj0 := x.nextObj
		for {
			x.nextObj, x.decN = obj0, 0
			x.depth, x.frames = 0, nil
			no, nr := len(x.obls), len(x.reaches)
			x.callFn(fn, nil, nil, pc2, h2.fork())
			if shard > 0 {
				// paths without a divided decision belong to the first worker
				divided := false
				for i := range x.decs {
					divided = divided || x.decs[i].wide
				}
				if !divided {
					x.obls, x.reaches = x.obls[:no], x.reaches[:nr]
				}
			}
			if !x.paths || !x.nextPath() {
				return ""
			}
			x.run++
			if expired(deadline) {
				return "time budget exhausted while enumerating paths"
			}
		}
	}()
	r.encode = time.Since(t0)
	r.terms = x.c.n
	if failed != "" {
		r.err = failed
		// assertions recorded before the construct still count
	}
	// ---- vacuity
	byLabel := map[string][]*B{}
	var order []string
	for _, q := range x.reaches {
		if byLabel[q.Label] == nil {
			order = append(order, q.Label)
		}
		byLabel[q.Label] = append(byLabel[q.Label], q.Cond)
	}
	var models []*Assign
	for _, l := range order {
		var a string
		var as *Assign
		if x.paths {
			for i, cond := range byLabel[l] {
				if a, as = x.solver.Check(x.c, []*B{cond}, true); a == "sat" || i >= 20 {
					break
				}
			}
		}
		if a != "sat" {
			a, as = x.solver.Check(x.c, []*B{x.c.OrAll(byLabel[l])}, true)
		}
		switch a {
		case "sat":
			r.reached = append(r.reached, l)
			if as != nil {
				models = append(models, as)
			}
		case "unsat":
			if failed == "" {
				r.vacuous = append(r.vacuous, l)
			}
		default:
			r.undecided = append(r.undecided, "reachability of "+l)
		}
	}
	if len(order) == 0 && failed == "" {
		r.vacuous = append(r.vacuous, noWitness)
	}
	// ---- obligations
	report := func(o Obligation, as *Assign) bool { return r.report(prop, x, o, as, nat, tier, knownWhat) }
	_ = report
	var plain, known []Obligation
	for _, o := range x.obls {
		if o.Known != "" {
			if _, ok := knownWhat[o.Known]; ok {
				known = append(known, o)
				continue
			}
			o.Known = ""
		}
		plain = append(plain, o)
	}
	r.obls = len(x.obls)
	var solve func(os_ []Obligation)
	solve = func(ob []Obligation) {
		if len(ob) == 0 {
			return
		}
		if expired(deadline) {
			r.undecided = append(r.undecided, fmt.Sprintf("%d obligations left when the time budget ended", len(ob)))
			return
		}
		if len(r.viol) >= 4 {
			return
		}
		if len(ob) > 1 && x.c.hasXor([]*B{ob[0].Cond}) && x.c.hasXor([]*B{ob[len(ob)-1].Cond}) {
			for _, o := range ob {
				solve([]Obligation{o})
			}
			return
		}
		var cs []*B
		for _, o := range ob {
			cs = append(cs, o.Cond)
		}
		f := x.c.OrAll(cs)
		a, as := sv(prim).Check(x.c, []*B{f}, true)
		if a == "unknown" && len(ob) == 1 {
			a, as = sv(alt).Check(x.c, []*B{f}, true)
			if a == "unknown" {
				a, as = sv("cvc5").Check(x.c, []*B{f}, true)
			}
		}
		switch a {
		case "unsat":
			if tier == "thorough" {
				b, _ := sv(alt).Check(x.c, []*B{f}, false)
				if b == "sat" {
					r.undecided = append(r.undecided, "solvers disagree on "+ob[0].Label)
					return
				}
				if b == "unsat" {
					r.second++
				}
			}
			r.discharged += len(ob)
			return
		case "sat":
			if len(ob) == 1 {
				if as != nil && report(ob[0], as) {
					return
				}
				// look for another model that avoids the free error symbols
				if as != nil && r.retry(prop, x, ob[0], as, nat, tier, knownWhat, sv(alt)) {
					return
				}
				r.spurious = append(r.spurious, fmt.Sprintf("%s %s (%s): solver model does not reproduce", ob[0].Kind, ob[0].Label, ob[0].Pos))
				r.undecided = append(r.undecided, fmt.Sprintf("candidate not reproduced: %s (%s)", ob[0].Label, ob[0].Pos))
				return
			}
		default:
			if len(ob) == 1 {
				r.undecided = append(r.undecided, fmt.Sprintf("solver gave no answer: %s (%s)", ob[0].Label, ob[0].Pos))
				return
			}
		}
		if as != nil && len(ob) > 1 {
			// obligations violated by this model go first
			e := newEval(x.c, as)
			var hit, rest []Obligation
			for _, o := range ob {
				if e.B(o.Cond) {
					hit = append(hit, o)
				} else {
					rest = append(rest, o)
				}
			}
			if len(hit) > 0 && len(rest) > 0 {
				for _, h := range hit {
					solve([]Obligation{h})
				}
				solve(rest)
				return
			}
		}
		m := len(ob) / 2
		solve(ob[:m])
		solve(ob[m:])
	}
	if x.paths {
		// path by path with numbers relaxed to reals first
		var hard []Obligation
		for i := 0; i < len(plain); {
			j := i + 1
			for ; j < len(plain) && plain[j].Run == plain[i].Run; j++ {
			}
			var cs []*B
			for _, o := range plain[i:j] {
				cs = append(cs, o.Cond)
			}
			if !expired(deadline) && sv(prim).RelaxedUnsat(x.c, []*B{x.c.OrAll(cs)}) {
				r.discharged += j - i
			} else if j == i+1 {
				hard = append(hard, plain[i])
			} else {
				for _, o := range plain[i:j] {
					if !expired(deadline) && sv(prim).RelaxedUnsat(x.c, []*B{o.Cond}) {
						r.discharged++
					} else {
						hard = append(hard, o)
					}
				}
			}
			i = j
		}
		if os.Getenv("VSYM_PATH") != "" {
			fmt.Fprintf(os.Stderr, "%d obligations, %d discharged by relaxation, %v\n", len(plain), r.discharged, time.Since(t0))
			for _, o := range hard {
				fmt.Fprintf(os.Stderr, "  path %d %s\n", o.Run, o.Label)
			}
		}
		plain = hard
	}
	const chunk = 64
	for i := 0; i < len(plain); i += chunk {
		j := i + chunk
		if j > len(plain) {
			j = len(plain)
		}
		if x.paths { // one path at a time
			for j = i + 1; j < len(plain) && plain[j].Run == plain[i].Run; j++ {
			}
			solve(plain[i:j])
			i = j - chunk
			continue
		}
		solve(plain[i:j])
	}
	byK := map[string][]Obligation{}
	for _, o := range known {
		byK[o.Known] = append(byK[o.Known], o)
	}
	for _, os_ := range byK {
		for _, o := range os_ {
			a, as := sv(prim).Check(x.c, []*B{o.Cond}, true)
			if a == "unsat" {
				r.discharged++
				continue
			}
			if a == "sat" && as != nil {
				report(o, as)
			}
		}
	}
	// ---- translation validation
	r.validate(prop, x, nat, tier, seed, models)
	return r
}

func (r *hres) report(prop string, x *Exec, o Obligation, as *Assign, nat *native, tier string, knownWhat map[string]string) bool {
	in := x.inputsOf(as)
	rs, err := nat.run(r.name, []map[string]string{in}, tier)
	if err != nil {
		// a crash that cannot be recovered (stack overflow, deadline) is still a crash of the real code
		if o.Kind != "panic" {
			return false
		}
		rs = []nativeRun{{Panic: err.Error()}}
	}
	n := rs[0]
	if n.Assume {
		return false
	}
	ok := false
	pn := ""
	if o.Known != "" {
		for _, k := range n.Known {
			if k == o.Known {
				ok = true
			}
		}
	} else if n.Panic != "" {
		ok = true
		pn = n.Panic
	} else {
		for _, f := range n.Fails {
			if f == o.Label {
				ok = true
			}
		}
		if !ok && len(n.Fails) > 0 {
			ok = true
			o.Label = n.Fails[0]
		}
		for _, k := range n.Known {
			if _, listed := knownWhat[k]; !listed {
				ok = true // a finding id nobody recorded suppresses nothing
			}
		}
	}
	if !ok {
		if os.Getenv("VSYM_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "not reproduced: %s %s %s in=%v native=%+v\n", r.name, o.Label, o.Pos, compact(in), n)
		}
		return false
	}
	v := violation{Harness: r.name, Kind: o.Kind, Label: o.Label, Pos: o.Pos, Known: o.Known, Inputs: compact(in), Panic: pn}
	if o.Known != "" {
		r.known = append(r.known, v)
		return true
	}
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, r.name, len(r.viol)))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "harness": r.name, "label": o.Label, "kind": o.Kind, "position": o.Pos, "inputs": in, "readable": compact(in), "panic": pn,
		"how": "/verif/run.sh replay " + f}, "", " ")
	os.WriteFile(f, b, 0o644)
	v.Replay = f
	r.viol = append(r.viol, v)
	if firstViolation.Load() == 0 {
		firstViolation.Store(time.Now().UnixNano())
	}
	return true
}

// retry asks for models in which all rounding-error symbols are zero, or, if
// the inputs include reals, for a few different ones.
func (r *hres) retry(prop string, x *Exec, o Obligation, first *Assign, nat *native, tier string, knownWhat map[string]string, s *Solver) bool {
	c := x.c
	_, e := c.Script([]*B{o.Cond})
	fs := []*B{o.Cond}
	for _, v := range e.rvs {
		if v.k == rVar && strings.HasPrefix(v.name, "eps") {
			fs = append(fs, c.Cmp(cmpEQ, c.LofRV(v)))
		}
	}
	if len(fs) > 1 {
		if a, as := s.Check(c, fs, true); a == "sat" && as != nil && r.report(prop, x, o, as, nat, tier, knownWhat) {
			return true
		}
	}
	// block the previous bit assignments a few times
	cur := first
	extra := []*B{o.Cond}
	for k := 0; k < 6; k++ {
		var diff []*B
		for n, w := range x.inputs {
			for i := 0; i < w; i++ {
				nm := fmt.Sprintf("%s.%d", n, i)
				b := c.Var(nm)
				if e.doneB[b] {
					diff = append(diff, c.Xor(b, c.Bool(cur.b[nm])))
				}
			}
		}
		for n := range x.realIn {
			if q := cur.r[n]; q != nil {
				l := c.LSub(c.RVar(n, nil, nil), c.LConst(q))
				d := c.LConst(big.NewRat(1, 1000))
				diff = append(diff, c.Cmp(cmpLT, c.LSub(d, l)), c.Cmp(cmpLT, c.LAdd(l, d)))
			}
		}
		if len(diff) == 0 {
			return false
		}
		extra = append(extra, c.OrAll(diff))
		a, as := s.Check(c, extra, true)
		if a != "sat" || as == nil {
			return false
		}
		if r.report(prop, x, o, as, nat, tier, knownWhat) {
			return true
		}
		cur = as
	}
	return false
}

// ---------------------------------------------------------------- validation

func (r *hres) validate(prop string, x *Exec, nat *native, tier string, seed int, models []*Assign) {
	if r.err != "" {
		return
	}
	n := 24
	if tier == "thorough" {
		n = 300
	}
	if len(r.undecided) > 0 && n < 200 {
		n = 200
	}
	h := int64(0)
	for _, ch := range r.name {
		h = h*131 + int64(ch)
	}
	rng := rand.New(rand.NewSource(int64(seed)*1000003 + h))
	var as []*Assign
	as = append(as, models...)
	if len(as) > 60 {
		as = as[:60]
	}
	// random perturbations of witness models reach deep paths; plain random reaches the rest
	for i := 0; i < n; i++ {
		a := &Assign{b: map[string]bool{}, r: map[string]*big.Rat{}}
		var base *Assign
		if len(models) > 0 && i%2 == 0 {
			base = models[rng.Intn(len(models))]
		}
		dens := 1 + rng.Intn(16)
		for _, nm := range x.inputOrder {
			for k := 0; k < x.inputs[nm]; k++ {
				bn := fmt.Sprintf("%s.%d", nm, k)
				if base != nil {
					a.b[bn] = base.b[bn] != (rng.Intn(40) < dens)
				} else {
					a.b[bn] = rng.Intn(2) == 1
				}
			}
		}
		for nm := range x.realIn {
			v := x.c.RVar(nm, nil, nil).rt[0].v
			lo, _ := v.lo.Float64()
			hi, _ := v.hi.Float64()
			a.r[nm] = ratF(lo + (hi-lo)*rng.Float64())
		}
		as = append(as, a)
	}
	var ins []map[string]string
	for _, a := range as {
		ins = append(ins, x.inputsOf(a))
	}
	rs, err := nat.run(r.name, ins, tier)
	if err != nil {
		r.mismatch = append(r.mismatch, "native run failed: "+err.Error())
		return
	}
	for i, a := range as {
		nr := rs[i]
		if nr.Assume {
			continue
		}
		// reals as the native side saw them
		for nm := range x.realIn {
			f, _ := strconv.ParseFloat(ins[i][nm], 64)
			a.r[nm] = ratF(f)
		}
		e := newEval(x.c, a)
		if m := r.compare(x, e, nr, a); m != "" {
			// an input on which the compiled code breaks an assertion is a
			// violation whatever the encoding says about it
			if (len(nr.Fails) > 0 || nr.Panic != "") && len(r.viol) == 0 {
				o := Obligation{Kind: "assertion", Label: "found while validating the encoding"}
				if nr.Panic != "" {
					o.Kind = "panic"
				}
				r.report(prop, x, o, a, nat, tier, nil)
			}
			if len(r.mismatch) < 5 {
				r.mismatch = append(r.mismatch, m+fmt.Sprintf(" on %v", compact(ins[i])))
			}
			continue
		}
		r.validated++
		if len(r.samples) < 2 {
			s := map[string]interface{}{"harness": r.name, "inputs": compact(ins[i])}
			obs := []string{}
			for k, o := range nr.Obs {
				if k < 6 {
					obs = append(obs, o.L+"="+obsStr(o))
				}
			}
			s["observed_by_compiled_code_and_encoding"] = obs
			r.samples = append(r.samples, s)
		}
	}
}

func obsStr(o nativeObs) string {
	switch o.K {
	case "i":
		return fmt.Sprint(o.I)
	case "f":
		return o.F
	}
	return o.S
}

func (r *hres) compare(x *Exec, e *evaluator, nr nativeRun, a *Assign) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("evaluation failed: %v", p)
		}
	}()
	type ov struct {
		k string
		i int64
		f float64
		s string
	}
	enc := map[string][]ov{}
	for _, o := range x.observes {
		if !e.B(o.Guard) {
			continue
		}
		switch v := o.V.(type) {
		case IntV:
			var u int64
			raw := e.BV(v.b)
			u = int64(raw)
			if len(v.b) < 64 && o.Sgn && len(v.b) > 1 && raw>>uint(len(v.b)-1) == 1 {
				u = int64(raw) - int64(1)<<uint(len(v.b))
			}
			enc[o.Label] = append(enc[o.Label], ov{k: "i", i: u})
		case FloatV:
			if e.B(v.spec) {
				enc[o.Label] = append(enc[o.Label], ov{k: "f", f: math.NaN()})
				continue
			}
			f, _ := e.Lin(v.l).Float64()
			enc[o.Label] = append(enc[o.Label], ov{k: "f", f: f})
		case *Rope:
			s, ok := x.evalRope(e, v)
			if !ok {
				enc[o.Label] = append(enc[o.Label], ov{k: "?"})
				continue
			}
			enc[o.Label] = append(enc[o.Label], ov{k: "s", s: s})
		}
	}
	natv := map[string][]ov{}
	for _, o := range nr.Obs {
		w := ov{k: o.K, i: o.I, s: o.S}
		if o.K == "f" {
			w.f, _ = strconv.ParseFloat(o.F, 64)
		}
		natv[o.L] = append(natv[o.L], w)
	}
	panicked := nr.Panic != ""
	encPanic := false
	fails := map[string]bool{}
	for _, o := range x.obls {
		if e.B(o.Cond) {
			if o.Kind == "panic" {
				encPanic = true
			} else {
				fails[o.Label] = true
			}
		}
	}
	if panicked != encPanic {
		return fmt.Sprintf("panic: native=%q encoded=%v", nr.Panic, encPanic)
	}
	if panicked {
		return ""
	}
	for _, f := range nr.Fails {
		if !fails[f] {
			return "assertion " + f + " fails natively but not in the encoding"
		}
		delete(fails, f)
	}
	for f := range fails {
		isK := false
		for _, o := range x.obls {
			if o.Label == f && o.Known != "" && e.B(o.Cond) {
				isK = true
			}
		}
		if !isK {
			return "assertion " + f + " fails in the encoding but not natively"
		}
	}
	for l, ev := range enc {
		nv := natv[l]
		if len(nv) != len(ev) {
			return fmt.Sprintf("observation %s: %d native, %d encoded", l, len(nv), len(ev))
		}
		ord := func(v []ov) {
			sort.Slice(v, func(i, j int) bool {
				if v[i].i != v[j].i {
					return v[i].i < v[j].i
				}
				if v[i].f != v[j].f {
					return v[i].f < v[j].f
				}
				return v[i].s < v[j].s
			})
		}
		ord(ev)
		ord(nv)
		for k := range ev {
			p, q := ev[k], nv[k]
			switch {
			case p.k == "?":
			case p.k != q.k:
				return "observation kind " + l
			case p.k == "i" && p.i != q.i:
				return fmt.Sprintf("observation %s: native %d, encoded %d", l, q.i, p.i)
			case p.k == "s" && p.s != q.s:
				return fmt.Sprintf("observation %s: native %q, encoded %q", l, q.s, p.s)
			case p.k == "f":
				if math.IsNaN(p.f) || math.IsNaN(q.f) || math.IsInf(q.f, 0) {
					if !(math.IsNaN(p.f) && (math.IsNaN(q.f) || math.IsInf(q.f, 0))) {
						return fmt.Sprintf("observation %s: native %v, encoded %v", l, q.f, p.f)
					}
					continue
				}
				if d := math.Abs(p.f - q.f); d > 1e-5*(1+math.Abs(p.f)) {
					return fmt.Sprintf("observation %s: native %v, encoded %v", l, q.f, p.f)
				}
			}
		}
	}
	for l := range natv {
		if _, ok := enc[l]; !ok {
			return "observation " + l + " only native"
		}
	}
	return ""
}

// evalRope renders a rope under an assignment.
func (x *Exec) evalRope(e *evaluator, r *Rope) (string, bool) {
	var sb strings.Builder
	for _, s := range r.segs {
		switch {
		case s.ch != nil:
			sb.WriteByte(byte(e.BV(s.ch)))
		case s.alts != nil:
			hit := false
			for _, a := range s.alts {
				if e.B(a.g) {
					t, ok := x.evalRope(e, a.r)
					if !ok {
						return "", false
					}
					sb.WriteString(t)
					hit = true
					break
				}
			}
			if !hit {
				return "", false
			}
		case s.fm != nil:
			if !strings.HasPrefix(s.fm.spec, "%") {
				return "", false
			}
			switch v := s.fm.v.(type) {
			case IntV:
				_, signed, _ := intWidth(s.fm.t)
				u := e.BV(v.b)
				if signed {
					n := int64(u)
					if w := len(v.b); w < 64 && u>>uint(w-1) == 1 {
						n -= int64(1) << uint(w)
					}
					fmt.Fprintf(&sb, s.fm.spec, n)
				} else {
					fmt.Fprintf(&sb, s.fm.spec, u)
				}
			default:
				return "", false
			}
		default:
			sb.WriteString(s.lit)
		}
	}
	return sb.String(), true
}

var _ = types.Typ
