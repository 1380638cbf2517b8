package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type handler func(e *Exec, f *ssa.Function, args []Val) (Val, bool)

type methKey struct {
	t types.Type
	m *types.Func
}

// Worker executes paths with its own term context and solver.
type Worker struct {
	meths     map[methKey]*ssa.Function
	grow      map[[3]int]int
	id        int
	prog      *Prog
	ctx       *Ctx
	sol       *Solver
	cfg       *Config
	hbCache   map[*Term][]Val
	globals   map[*ssa.Global]*Val
	inited    map[*ssa.Package]bool
	rtErr     types.Type
	lastPanic []string
	usedFn    map[*ssa.Function]bool
	handlers  map[*ssa.Function]handler
	hset      map[*ssa.Function]bool
	redirs    map[*ssa.Function]*ssa.Function
	undoBuf   []undo
}

// Config of a run.
type Config struct {
	Z3        string
	Timeout   int // ms per query
	MaxSteps  int64
	MaxPaths  int64
	Deadline  time.Time
	Params    map[string]int64
	Workers   int
	Trace     bool
	StopAfter int
	Samples   bool
	Seed      int64
}

// Result of a harness.
type Result struct {
	Harness    string            `json:"harness"`
	Params     map[string]int64  `json:"params"`
	Paths      int64             `json:"paths"`
	Pruned     int64             `json:"pruned"`
	Asserts    int64             `json:"asserts"`
	AssertQ    int64             `json:"assert_queries"`
	Queries    int64             `json:"queries"`
	Unsat      int64             `json:"unsat"`
	Sat        int64             `json:"sat"`
	Unknown    int64             `json:"unknown"`
	SolverS    float64           `json:"solver_s"`
	WallS      float64           `json:"wall_s"`
	Steps      int64             `json:"steps"`
	MaxDepth   int               `json:"max_depth"`
	Reached    map[string]int64  `json:"reached"`
	Violations []*Violation      `json:"violations"`
	Inconcl    map[string]int64  `json:"inconclusive"`
	Funcs      []string          `json:"functions"`
	Notes      map[string]string `json:"notes,omitempty"`
	Samples    [][]*Input        `json:"samples,omitempty"`
	mu         sync.Mutex
	funcs      map[string]bool
	violSeen   map[string]bool
}

type job struct {
	prefix []Decision
}

// Explorer shares the worklist.
type Explorer struct {
	mu      sync.Mutex
	cond    *sync.Cond
	stack   []job
	active  int
	stop    bool
	res     *Result
	cfg     *Config
	prog    *Prog
	entry   *ssa.Function
	started int64
}

func (x *Explorer) push(j job) {
	x.mu.Lock()
	x.stack = append(x.stack, j)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) pop() (job, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop {
			return job{}, false
		}
		if n := len(x.stack); n > 0 {
			j := x.stack[n-1]
			x.stack = x.stack[:n-1]
			x.active++
			return j, true
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return job{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) done() {
	x.mu.Lock()
	x.active--
	if x.active == 0 && len(x.stack) == 0 {
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

func (r *Result) inconclusive(why string) {
	r.mu.Lock()
	r.Inconcl[why]++
	r.mu.Unlock()
}

func newWorker(id int, prog *Prog, cfg *Config) *Worker {
	w := &Worker{id: id, prog: prog, cfg: cfg, meths: map[methKey]*ssa.Function{}, grow: map[[3]int]int{}}
	w.globals = map[*ssa.Global]*Val{}
	w.inited = map[*ssa.Package]bool{}
	w.usedFn = map[*ssa.Function]bool{}
	w.handlers = map[*ssa.Function]handler{}
	w.hset = map[*ssa.Function]bool{}
	w.redirs = map[*ssa.Function]*ssa.Function{}
	w.rtErr = prog.rtErr
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.sol != nil {
		w.sol.Close()
	}
	w.ctx = newCtx()
	w.sol = newSolver(w.ctx, w.cfg.Z3, w.cfg.Timeout)
	w.hbCache = map[*Term][]Val{}
}

func (w *Worker) close() {
	if w.sol != nil {
		w.sol.Close()
		w.sol = nil
	}
}

// initPkg runs the initialiser of a package, without those of its imports
// (they are initialised when one of their globals is first used).
func (w *Worker) initPkg(e *Exec, p *ssa.Package) {
	if p == nil || w.inited[p] {
		return
	}
	w.inited[p] = true
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			c := new(Val)
			*c = zero(g.Type().(*types.Pointer).Elem())
			w.globals[g] = c
		}
	}
	if !w.prog.wantInit(p.Pkg.Path()) {
		return
	}
	in := p.Func("init")
	if in == nil {
		return
	}
	sj, ss, si, sx := e.journal, e.steps, e.inInit, e.explore
	e.journal, e.inInit, e.explore = false, true, 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					w.prog.note("init of "+p.Pkg.Path(), u.msg+" at "+strings.Join(e.stack(), " < "))
					return
				}
				panic(r)
			}
		}()
		e.callSync(Val{r: &Closure{fn: in}}, nil)
	}()
	e.journal, e.inInit, e.explore = sj, si, sx
	e.steps = ss
}

// runHarness explores all paths of entry.
func runHarness(prog *Prog, entry *ssa.Function, cfg *Config) *Result {
	t0 := time.Now()
	s0 := stats
	res := &Result{Harness: entry.Name(), Params: cfg.Params, Reached: map[string]int64{}, Inconcl: map[string]int64{}, funcs: map[string]bool{}, violSeen: map[string]bool{}, Notes: map[string]string{}}
	x := &Explorer{res: res, cfg: cfg, prog: prog, entry: entry}
	x.cond = sync.NewCond(&x.mu)
	x.stack = []job{{}}
	var wg sync.WaitGroup
	for i := 0; i < cfg.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var w *Worker
			for {
				j, ok := x.pop()
				if !ok {
					break
				}
				if w == nil {
					w = newWorker(i, prog, cfg)
				}
				w.runPath(x, j)
				x.done()
			}
			if w != nil {
				res.mu.Lock()
				for f := range w.usedFn {
					if prog.isRepo(f) {
						res.funcs[f.String()] = true
					}
				}
				res.mu.Unlock()
				w.close()
			}
		}(i)
	}
	wg.Wait()
	for f := range res.funcs {
		res.Funcs = append(res.Funcs, f)
	}
	sort.Strings(res.Funcs)
	res.WallS = time.Since(t0).Seconds()
	res.Queries = atomic.LoadInt64(&stats.Queries) - s0.Queries
	res.Unsat = atomic.LoadInt64(&stats.UnsatN) - s0.UnsatN
	res.Sat = atomic.LoadInt64(&stats.SatN) - s0.SatN
	res.Unknown = atomic.LoadInt64(&stats.UnknownN) - s0.UnknownN
	res.SolverS = float64(atomic.LoadInt64(&stats.SolverNs)-s0.SolverNs) / 1e9
	if n := atomic.LoadInt64(&stats.Errors) - s0.Errors; n > 0 {
		res.Inconcl["solver errors"] += n
	}
	return res
}

func (w *Worker) runPath(x *Explorer, j job) {
	if len(w.sol.defined) > 30000 || w.sol.dead || len(w.ctx.all) > 3000000 {
		w.reset()
	}
	w.ctx.resetSub()
	e := &Exec{w: w, ctx: w.ctx, sol: w.sol, prog: w.prog, prefix: j.prefix, maxStep: w.cfg.MaxSteps, x: x}
	e.names = map[string]int{}
	e.blobs = map[*Term]*blob{}
	e.shared = map[string]any{}
	e.mutexes = map[*Val]*muState{}
	e.onces = map[*Val]int{}
	e.wgs = map[*Val]*int64{}
	e.sideM = map[any]any{}
	e.reached = map[string]bool{}
	e.b64src = nil
	e.progKeys = map[string][]Val{}
	e.progSym = map[*Term][]Val{}
	e.journal = true
	e.undos = w.undoBuf[:0]
	e.trace = w.cfg.Trace
	w.sol.Push()
	pruned := false
	why := e.run(x.entry)
	var sample []*Input
	if why == "" && e.viol == nil && len(e.inputs) > 0 && w.cfg.Samples {
		x.res.mu.Lock()
		n := x.res.Paths + 1
		x.res.mu.Unlock()
		if n&(n-1) == 0 {
			v := &Violation{}
			if e.extract(v) == nil {
				sample = v.Inputs
			}
		}
	}
	for i := len(e.undos) - 1; i >= 0; i-- {
		u := e.undos[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.v
		}
	}
	for i := range e.undos {
		e.undos[i] = undo{}
	}
	w.undoBuf = e.undos[:0]
	if e.stale {
		w.undoBuf = nil
		w.globals = map[*ssa.Global]*Val{}
		w.inited = map[*ssa.Package]bool{}
	}
	w.sol.Pop()
	switch {
	case why == "":
	case why == "pruned":
		pruned = true
	default:
		x.res.inconclusive(why)
	}
	r := x.res
	r.mu.Lock()
	r.Asserts += int64(e.asserts)
	r.AssertQ += int64(e.assertQ)
	r.Steps += e.steps
	if len(e.dec) > r.MaxDepth {
		r.MaxDepth = len(e.dec)
	}
	if pruned {
		r.Pruned++
	} else {
		r.Paths++
		for k := range e.reached {
			r.Reached[k]++
		}
	}
	if sample != nil {
		r.Samples = append(r.Samples, sample)
	}
	if e.viol != nil {
		v := e.viol
		key := v.Kind + "|" + v.Msg
		if !r.violSeen[key] {
			r.violSeen[key] = true
			r.Violations = append(r.Violations, v)
		}
	}
	nv := len(r.Violations)
	r.mu.Unlock()
	if nv > 0 && nv >= w.cfg.StopAfter {
		x.mu.Lock()
		x.stop = true
		x.mu.Unlock()
		x.cond.Broadcast()
	}
	n := atomic.AddInt64(&x.started, 1)
	if n >= w.cfg.MaxPaths || time.Now().After(w.cfg.Deadline) {
		x.mu.Lock()
		if !x.stop && (len(x.stack) > 0 || x.active > 1) {
			x.res.inconclusive("budget")
		}
		x.stop = true
		x.mu.Unlock()
		x.cond.Broadcast()
	}
}

// run executes one path; returns "" when complete, "pruned", or a reason.
func (e *Exec) run(entry *ssa.Function) (why string) {
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case pathEnd:
				if p.why == "infeasible" || p.why == "assume" {
					why = "pruned"
				} else if p.why != "" && p.why != "panic" && p.why != "violation" && p.why != "exit" {
					why = p.why
				}
			case unsupported:
				why = "unsupported: " + p.msg + " @ " + strings.Join(firstN(e.stack(), 3), " < ")
			case stepLimit:
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(pathEnd); !ok {
								why = fmt.Sprint("step limit: ", r)
							}
						}
					}()
					if p.msg == "" {
						p.msg = fmt.Sprintf("no end after %d steps", e.maxStep)
					}
					e.fail("hang", p.msg)
				}()
			case goPanicked:
				func() {
					defer func() { recover() }()
					e.fail("panic", "uncaught panic: "+e.showPanic(p.v))
				}()
			default:
				why = fmt.Sprintf("engine: %v @ %s", r, strings.Join(firstN(e.stack(), 3), " < "))
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n%s\n", r, strings.Join(e.stack(), "\n"), debug.Stack())
				}
			}
		}
	}()
	g := &Goroutine{id: 0}
	e.gs = []*Goroutine{g}
	e.startRaces()
	e.forked(nil, g)
	e.cur = g
	e.invoke(Val{r: entry}, nil, -1, nil, nil)
	e.schedule()
	return ""
}

func firstN(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---- decisions

func (e *Exec) replaying() bool { return e.pos < len(e.prefix) }

func (e *Exec) next_(k byte) (uint64, bool) {
	if e.pos < len(e.prefix) {
		d := e.prefix[e.pos]
		if d.K != k {
			panic(unsupported{fmt.Sprintf("replay divergence: want %c have %c", k, d.K)})
		}
		e.pos++
		e.dec = append(e.dec, d)
		return d.V, true
	}
	return 0, false
}

func (e *Exec) record(k byte, v uint64) {
	e.dec = append(e.dec, Decision{k, v})
	e.pos++
}

func (e *Exec) alt(k byte, v uint64) {
	p := make([]Decision, len(e.dec)+1)
	copy(p, e.dec)
	p[len(e.dec)] = Decision{k, v}
	e.x.push(job{prefix: p})
}

// assume adds t to the path condition without checking.
func (e *Exec) addPC(t *Term) {
	t0 := e.ctx.Subst(t)
	if t0.isTrue() {
		return
	}
	e.pending = append(e.pending, t0)
	e.ctx.Learn(t0)
}

func (e *Exec) flushPC() {
	for _, t := range e.pending {
		e.sol.Assert(t)
	}
	e.pending = e.pending[:0]
}

func (e *Exec) check(ts ...*Term) SatResult {
	e.flushPC()
	if time.Now().After(e.x.cfg.Deadline) {
		panic(pathEnd{"budget"})
	}
	return e.sol.CheckWith(ts...)
}

// branch decides a symbolic condition.
func (e *Exec) branch(t *Term) bool {
	if t.isConst() {
		return t.c == 1
	}
	if e.inInit {
		panic(unsupported{"symbolic branch in package init"})
	}
	if v, ok := e.next_('b'); ok {
		if v == 1 {
			e.addPC(t)
			return true
		}
		e.addPC(e.ctx.Not(t))
		return false
	}
	s := e.ctx.Subst(t)
	if s.isConst() {
		e.record('b', s.c)
		return s.c == 1
	}
	t0 := time.Now()
	defer func() {
		if forkProfile != nil {
			e.noteFork(s, time.Since(t0))
		}
	}()
	r1 := e.check(s)
	if r1 == Unsat {
		e.record('b', 0)
		e.addPC(e.ctx.Not(s))
		return false
	}
	r2 := e.check(e.ctx.Not(s))
	if r2 == Unsat {
		e.record('b', 1)
		e.addPC(s)
		return true
	}
	if r1 == Unknown || r2 == Unknown {
		e.x.res.inconclusive("solver unknown at branch")
	}
	e.alt('b', 0)
	e.record('b', 1)
	e.addPC(s)
	return true
}

// concretize forks over the values of t.
func (e *Exec) concretize(t *Term, max int) uint64 {
	if t.isConst() {
		return t.c
	}
	for n := 0; ; n++ {
		if n > max {
			panic(unsupported{fmt.Sprintf("concretize: more than %d values", max)})
		}
		v, ok := e.next_('v')
		if !ok {
			s := e.ctx.Subst(t)
			if s.isConst() {
				v = s.c
			} else {
				e.flushPC()
				ref := e.sol.ref(s)
				_ = ref
				e.sol.Push()
				e.sol.axioms(s)
				r := e.sol.Check()
				if r == Sat {
					vs, err := e.sol.Values([]*Term{s})
					e.sol.Pop()
					if err != nil {
						panic(unsupported{"model: " + err.Error()})
					}
					u, ok := parseBV(vs[0])
					if !ok {
						panic(unsupported{"model value " + vs[0]})
					}
					v = u
				} else {
					e.sol.Pop()
					if r == Unsat {
						panic(pathEnd{"infeasible"})
					}
					panic(unsupported{"solver unknown at concretize"})
				}
			}
			e.record('v', v)
		}
		if e.branch(e.ctx.Eq(t, e.ctx.BV(t.s.w, v))) {
			return v
		}
	}
}

// choose is a free choice among n options.
func (e *Exec) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if v, ok := e.next_('c'); ok {
		return int(v)
	}
	for i := n - 1; i >= 1; i-- {
		e.alt('c', uint64(i))
	}
	e.record('c', 0)
	return 0
}

func (e *Exec) assume(t *Term) {
	if e.replaying() {
		e.addPC(t)
		return
	}
	s := e.ctx.Subst(t)
	if s.isTrue() {
		return
	}
	if s.isFalse() {
		panic(pathEnd{"assume"})
	}
	e.addPC(s)
	if e.check() == Unsat {
		panic(pathEnd{"assume"})
	}
}

func (e *Exec) assert(t *Term, msg string) {
	if e.replaying() {
		return
	}
	e.asserts++
	s := e.ctx.Subst(t)
	if s.isTrue() {
		return
	}
	n := e.ctx.Not(s)
	e.flushPC()
	e.assertQ++
	r := e.sol.CheckWith(n)
	switch r {
	case Unsat:
		e.addPC(s)
		return
	case Unknown:
		e.x.res.inconclusive("solver unknown at assertion: " + msg)
		return
	}
	e.addPC(n)
	e.fail("assert", msg)
}

// fail records a violation of the current path (if it is feasible) and ends it.
func (e *Exec) fail(kind, msg string) {
	e.flushPC()
	v := &Violation{Kind: kind, Msg: msg, Sched: append([]Switch(nil), e.switches...)}
	if kind == "panic" {
		v.Stack = e.w.lastPanic
	} else {
		v.Stack = e.stack()
	}
	if err := e.extract(v); err != nil {
		if err == errInfeasible {
			panic(pathEnd{"infeasible"})
		}
		e.x.res.inconclusive("model extraction: " + err.Error() + " for " + kind + ": " + msg)
		panic(pathEnd{"violation"})
	}
	e.viol = v
	panic(pathEnd{"violation"})
}

// forkProfile, if GOSYM_FORKS is set, counts solver branches by place.
var forkProfile = func() map[string]*forkStat {
	if os.Getenv("GOSYM_FORKS") != "" {
		return map[string]*forkStat{}
	}
	return nil
}()

type forkStat struct {
	n  int
	d  time.Duration
	ex string
}

var forkMu sync.Mutex

func (e *Exec) noteFork(t *Term, d time.Duration) {
	st := e.stack()
	if len(st) > 4 {
		st = st[:4]
	}
	k := strings.Join(st, " < ")
	forkMu.Lock()
	defer forkMu.Unlock()
	f := forkProfile[k]
	if f == nil {
		f = &forkStat{ex: fmt.Sprintf("%.300s", t.String())}
		forkProfile[k] = f
	}
	f.n++
	f.d += d
}

func dumpForks() {
	for k, f := range forkProfile {
		fmt.Printf("FORK %6d %8.2fs %s\n     e.g. %s\n", f.n, f.d.Seconds(), k, f.ex)
	}
}
