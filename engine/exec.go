package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }
type pathEnd struct{ why string } // pruned or infeasible
type goPanicked struct{ v Val }   // a Go panic raised inside an engine operation

// Decision made at a choice point.
type Decision struct {
	K byte   // 'b' branch, 'v' value, 'c' free choice
	V uint64 // the value
}

type deferred struct {
	fn   Val
	args []Val
	inv  *ssa.CallCommon
}

// Frame of an interpreted call.
type Frame struct {
	cf        *cfn
	regs      []Val
	blk, pc   int
	prev      int
	defers    []deferred
	panicking bool
	recovered bool
	pval      Val
	deferOf   *Frame // set when called by the unwinding/rundefers of this frame
	dst       int    // where the caller wants the result (-1: nowhere)
	result    Val
	callPos   token.Pos
	last      *cinstr // the instruction it is at, when interleavings are explored
	onRet     func(v Val)
}

// Goroutine state.
type Goroutine struct {
	id      int
	frames  []*Frame
	blocked bool
	dead    bool
	why     string
	wakeVal func()
	ready   func() bool
	sync    bool // a nested synchronous call

	settling bool
	owner    *Goroutine // of a nested synchronous call
	vc       vclock
	result   Val
}

// Input is one nondeterministic input of the path.
type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	t    *Term
	ts   []*Term
	Val  string `json:"val"`
	conc *uint64
}

// Exec is one path execution.
type Exec struct {
	b64src      map[[4]*Term][]Val
	w           *Worker
	ctx         *Ctx
	sol         *Solver
	prog        *Prog
	prefix      []Decision
	dec         []Decision
	pos         int
	steps       int64
	maxStep     int64
	gs          []*Goroutine
	cur         *Goroutine
	journal     bool
	undos       []undo
	stale       bool // there is no journal for the path
	inputs      []*Input
	names       map[string]int
	blobs       map[*Term]*blob
	fresh       int
	chans       int
	timers      []*ChanV
	clock       int64 // virtual time, for timers
	explore     int   // remaining preemptions
	exploreOn   bool
	preempt     bool
	shared      map[string]any
	mutexes     map[*Val]*muState
	onces       map[*Val]int
	wgs         map[*Val]*int64
	progKeys    map[string][]Val
	progSym     map[*Term][]Val
	reached     map[string]bool
	asserts     int
	viol        *Violation
	expectPanic bool
	mayExit     bool // the process may end by itself
	inInit      bool
	race        *raceState
	timeN       int64
	sideM       map[any]any
	pending     []*Term
	trace       bool
	x           *Explorer
	assertQ     int
	nextG       *Goroutine
	switches    []Switch // preemptions so far
	hits        map[*cinstr]int
}

type muState struct {
	w     bool
	r     int
	waitW []*Goroutine
}

// Violation found on a path.
type Violation struct {
	Kind   string
	Msg    string
	Pos    string
	Inputs []*Input
	Stack  []string
	Sched  []Switch
}

func (e *Exec) goPanic(msg string) {
	panic(goPanicked{Val{r: &IfaceV{t: e.w.rtErr, v: strVal(msg)}}})
}

func (e *Exec) get(fr *Frame, o *operand) Val {
	switch o.k {
	case okReg:
		return fr.regs[o.i]
	case okConst:
		return o.v
	case okGlobal:
		return Val{r: e.globalCell(o.g)}
	}
	return Val{}
}

func (e *Exec) globalCell(g *ssa.Global) *Val {
	if p, ok := e.w.globals[g]; ok {
		return p
	}
	// run the package initialiser lazily
	e.w.initPkg(e, g.Pkg)
	if p, ok := e.w.globals[g]; ok {
		return p
	}
	p := new(Val)
	*p = zero(g.Type().(*types.Pointer).Elem())
	e.w.globals[g] = p
	return p
}

func (e *Exec) newFrame(fn *ssa.Function, args []Val, env []Val) *Frame {
	cf := e.prog.compile(fn)
	if cf == nil {
		panic(unsupported{"no body: " + fn.String()})
	}
	if !e.w.usedFn[fn] {
		e.w.usedFn[fn] = true
	}
	fr := &Frame{cf: cf, regs: make([]Val, cf.nregs), dst: -1, prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	return fr
}

// callSync runs fn to completion and returns its result.
func (e *Exec) callSync(fn Val, args []Val) Val {
	save := e.cur
	defer func() { e.cur = save }()
	g := &Goroutine{id: -1, sync: true, owner: save}
	e.cur = g
	done := false
	var res Val
	if e.invoke(fn, args, -1, nil, func(v Val) { res = v; done = true }) {
		for !done {
			e.stepSafe()
			if g.blocked {
				panic(unsupported{"blocking in a synchronous callback"})
			}
			if g.dead && !done {
				panic(unsupported{"panic in a synchronous callback"})
			}
		}
	}
	return res
}

// invoke starts a call on the current goroutine. Returns true if a frame was pushed.
// For native calls the result is delivered immediately through onRet / dst.
func (e *Exec) invoke(fv Val, args []Val, dst int, deferOf *Frame, onRet func(Val)) bool {
	deliver := func(v Val) {
		if onRet != nil {
			onRet(v)
			return
		}
		if dst >= 0 {
			fr := e.cur.frames[len(e.cur.frames)-1]
			fr.regs[dst] = v
		}
	}
	switch f := fv.r.(type) {
	case nil:
		e.goPanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
	case *ssa.Builtin:
		panic(unsupported{"builtin as value " + f.Name()})
	case *NativeFn:
		deliver(f.f(e, args))
		return false
	case *Closure:
		fr := e.newFrame(f.fn, args, f.env)
		fr.dst, fr.deferOf, fr.onRet = dst, deferOf, onRet
		e.cur.frames = append(e.cur.frames, fr)
		return true
	case *ssa.Function:
		if h := e.w.intrinsic(f); h != nil {
			v, blocked := h(e, f, args)
			if _, ok := v.r.(itself); ok {
				goto run
			}
			if blocked {
				// the intrinsic will deliver through wakeVal
				g := e.cur
				var top *Frame
				if len(g.frames) > 0 {
					top = g.frames[len(g.frames)-1]
				}
				acq := g.wakeVal
				g.wakeVal = func() {
					if acq != nil {
						acq()
					}
					if onRet != nil {
						onRet(Val{})
					} else if dst >= 0 && top != nil {
						top.regs[dst] = Val{}
					}
				}
				return false
			}
			deliver(v)
			return false
		}
	run:
		if r := e.w.redirect(f); r != nil {
			f = r
		}
		if len(e.cur.frames) > 2000 {
			panic(stepLimit{"calls nest without end"})
		}
		fr := e.newFrame(f, args, nil)
		fr.dst, fr.deferOf, fr.onRet = dst, deferOf, onRet
		e.cur.frames = append(e.cur.frames, fr)
		return true
	}
	panic(unsupported{fmt.Sprintf("call of %T", fv.r)})
}

// ret returns from the top frame.
func (e *Exec) ret(v Val) {
	g := e.cur
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if fr.deferOf != nil {
		p := fr.deferOf
		if p.panicking {
			if p.recovered {
				p.panicking, p.recovered = false, false
				p.pval = Val{}
				// continue with remaining defers, then the recover block
				e.finishRecovered(p)
				return
			}
			e.unwind()
			return
		}
		return // rundefers re-executes
	}
	if fr.onRet != nil {
		fr.onRet(v)
		if len(g.frames) == 0 {
			g.dead = true
		}
		return
	}
	if len(g.frames) == 0 {
		g.dead = true
		g.result = v
		return
	}
	if fr.dst >= 0 {
		g.frames[len(g.frames)-1].regs[fr.dst] = v
	}
}

// finishRecovered continues a frame whose panic has been recovered.
func (e *Exec) finishRecovered(p *Frame) {
	if len(p.defers) > 0 {
		d := p.defers[len(p.defers)-1]
		p.defers = p.defers[:len(p.defers)-1]
		if e.startDefer(p, d) {
			// when it returns (not panicking) we need to come back here
			e.cur.frames[len(e.cur.frames)-1].onRet = nil
			p.recoverPending()
			return
		}
		e.finishRecovered(p)
		return
	}
	if p.cf.recov >= 0 {
		p.blk, p.pc, p.prev = p.cf.recov, 0, -1
		return
	}
	e.ret(zero(p.cf.fn.Signature.Results()))
}

// recoverPending makes the frame run its remaining defers and then the recover block.
func (p *Frame) recoverPending() {
	p.blk, p.pc = -1, 0
}

func (e *Exec) startDefer(fr *Frame, d deferred) bool {
	if b, ok := d.fn.r.(*ssa.Builtin); ok {
		e.builtin(fr, b, d.args, nil, d.inv)
		return false
	}
	return e.invoke(d.fn, d.args, -1, fr, func(Val) {})
}

// unwind propagates the panic of the top frame.
func (e *Exec) unwind() {
	g := e.cur
	for {
		if len(g.frames) == 0 {
			return
		}
		fr := g.frames[len(g.frames)-1]
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			if e.startDefer(fr, d) {
				return
			}
			if fr.recovered {
				fr.panicking, fr.recovered = false, false
				e.finishRecovered(fr)
				return
			}
			continue
		}
		v := fr.pval
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 {
			g.dead = true
			if g.sync {
				panic(goPanicked{v})
			}
			e.fail("panic", "uncaught panic: "+e.showPanic(v))
			panic(pathEnd{"panic"})
		}
		// a deferred call that panics replaces the panic of the frame that runs it
		var nf *Frame
		if fr.deferOf != nil {
			nf = fr.deferOf
		} else {
			nf = g.frames[len(g.frames)-1]
		}
		nf.panicking, nf.recovered, nf.pval = true, false, v
	}
}

func (e *Exec) showPanic(v Val) string {
	if iv, ok := v.r.(*IfaceV); ok {
		if s, ok := iv.v.r.(string); ok {
			return s
		}
		return iv.t.String()
	}
	return "?"
}

// raise starts a Go panic on the current goroutine.
func (e *Exec) raise(v Val) {
	g := e.cur
	if len(g.frames) == 0 {
		panic(goPanicked{v})
	}
	e.w.lastPanic = e.stack()
	fr := g.frames[len(g.frames)-1]
	fr.panicking, fr.recovered, fr.pval = true, false, v
	e.unwind()
}

func (e *Exec) stack() []string {
	var out []string
	g := e.cur
	if g == nil {
		return nil
	}
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		pos := ""
		if fr.blk >= 0 && fr.pc < len(fr.cf.blocks[fr.blk].ins) {
			p := fr.cf.blocks[fr.blk].ins[fr.pc].in.Pos()
			if p.IsValid() {
				pos = e.prog.ssa.Fset.Position(p).String()
			}
		}
		out = append(out, fr.cf.fn.String()+" "+pos)
		if len(out) > 25 {
			break
		}
	}
	return out
}

// stepSafe executes one instruction, turning engine raised Go panics into interpreted ones.
func (e *Exec) stepSafe() {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(goPanicked); ok && e.cur != nil && len(e.cur.frames) > 0 {
				e.raise(p.v)
				return
			}
			panic(r)
		}
	}()
	// run a burst without re-arming the deferred recover
	g := e.cur
	for n := 0; n < 4096; n++ {
		e.step()
		if e.cur != g || g.blocked || g.dead || len(g.frames) == 0 || e.preempt {
			return
		}
	}
}

func (e *Exec) step() {
	e.steps++
	if e.steps > e.maxStep {
		panic(stepLimit{})
	}
	g := e.cur
	fr := g.frames[len(g.frames)-1]
	if fr.blk < 0 { // recovered, running the remaining defers
		e.finishRecovered(fr)
		return
	}
	ci := &fr.cf.blocks[fr.blk].ins[fr.pc]
	if e.exploreOn && fr.cf.anchor {
		fr.last = ci
		e.hits[ci]++
	}
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		e.unop(fr, ci, in)
	case *ssa.BinOp:
		x, y := e.get(fr, &ci.ops[0]), e.get(fr, &ci.ops[1])
		fr.regs[ci.dst] = e.binop(in.Op, x, y, in.X.Type(), in.Y.Type())
	case *ssa.Store:
		p := e.ptr(e.get(fr, &ci.ops[0]))
		if e.raceOn(fr) {
			e.touch(fr, in, p, true)
		}
		e.store(p, e.get(fr, &ci.ops[1]))
	case *ssa.FieldAddr:
		p := e.ptr(e.get(fr, &ci.ops[0]))
		s, ok := p.r.(*StructV)
		if !ok {
			panic(unsupported{fmt.Sprintf("fieldaddr on %T in %s", p.r, fr.cf.fn)})
		}
		fr.regs[ci.dst] = Val{r: &s.f[in.Field]}
	case *ssa.Field:
		fr.regs[ci.dst] = e.get(fr, &ci.ops[0]).r.(*StructV).f[in.Field]
	case *ssa.IndexAddr:
		e.indexAddr(fr, ci, in)
	case *ssa.Index:
		e.index(fr, ci, in)
	case *ssa.Jump:
		e.jump(fr, fr.cf.fn.Blocks[fr.blk].Succs[0].Index)
		return
	case *ssa.If:
		c := e.get(fr, &ci.ops[0])
		b := c.c != 0
		if t := c.sym(); t != nil {
			b = e.branch(t)
		}
		i := 1
		if b {
			i = 0
		}
		e.jump(fr, fr.cf.fn.Blocks[fr.blk].Succs[i].Index)
		return
	case *ssa.Phi:
		e.phis(fr)
		return
	case *ssa.Call:
		fr.pc++
		e.call(fr, ci, &in.Call)
		return
	case *ssa.Return:
		var v Val
		switch len(ci.ops) {
		case 0:
		case 1:
			v = copyVal(e.get(fr, &ci.ops[0]))
		default:
			s := &StructV{f: make([]Val, len(ci.ops))}
			for i := range ci.ops {
				s.f[i] = copyVal(e.get(fr, &ci.ops[i]))
			}
			v = Val{r: s}
		}
		e.ret(v)
		return
	case *ssa.Alloc:
		p := new(Val)
		*p = zero(in.Type().(*types.Pointer).Elem())
		fr.regs[ci.dst] = Val{r: p}
	case *ssa.Slice:
		fr.regs[ci.dst] = e.slice(fr, ci, in)
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Val{r: &IfaceV{t: in.X.Type(), v: copyVal(e.get(fr, &ci.ops[0]))}}
	case *ssa.Extract:
		fr.regs[ci.dst] = e.get(fr, &ci.ops[0]).r.(*StructV).f[in.Index]
	case *ssa.Convert:
		x := e.get(fr, &ci.ops[0])
		if s, ok := x.r.(*SliceV); ok && e.raceOn(fr) {
			e.touchAll(fr, in, s.a, false)
		}
		fr.regs[ci.dst] = e.convert(x, in.X.Type(), in.Type())
	case *ssa.ChangeType:
		fr.regs[ci.dst] = e.get(fr, &ci.ops[0])
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = e.get(fr, &ci.ops[0])
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = e.convert(e.get(fr, &ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.SliceToArrayPointer:
		s := bytesOf(e.get(fr, &ci.ops[0]))
		n := int(in.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			e.goPanic("runtime error: cannot convert slice to array pointer")
		}
		p := new(Val)
		*p = Val{r: &ArrV{a: s[:n:n]}}
		fr.regs[ci.dst] = Val{r: p}
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for i := 1; i < len(ci.ops); i++ {
			c.env = append(c.env, e.get(fr, &ci.ops[i]))
		}
		fr.regs[ci.dst] = Val{r: c}
	case *ssa.MakeSlice:
		n := e.concInt(e.get(fr, &ci.ops[0]), in.Len.Type(), "make len")
		cp := e.concInt(e.get(fr, &ci.ops[1]), in.Cap.Type(), "make cap")
		if n < 0 || cp < n {
			e.goPanic("runtime error: makeslice: len out of range")
		}
		if cp > 1<<20 {
			if cp > 1<<40 {
				e.goPanic("runtime error: makeslice: len out of range")
			}
			panic(unsupported{fmt.Sprintf("huge allocation %d", cp)})
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		a := make([]Val, cp)
		if !simpleZero(el) {
			for i := range a {
				a[i] = zero(el)
			}
		}
		fr.regs[ci.dst] = Val{r: &SliceV{a: a[:n]}}
	case *ssa.MakeMap:
		fr.regs[ci.dst] = Val{r: newMap(in.Type().Underlying().(*types.Map).Key())}
	case *ssa.MakeChan:
		n := e.concInt(e.get(fr, &ci.ops[0]), in.Size.Type(), "make chan")
		e.chans++
		fr.regs[ci.dst] = Val{r: &ChanV{id: e.chans, cap: int(n), et: in.Type().Underlying().(*types.Chan).Elem()}}
	case *ssa.MapUpdate:
		m := e.get(fr, &ci.ops[0])
		if m.r == nil {
			e.goPanic("assignment to entry in nil map")
		}
		if e.raceOn(fr) {
			e.accessed(fr, in, m.r, true)
		}
		e.mapSet(m.r.(*MapV), e.get(fr, &ci.ops[1]), e.get(fr, &ci.ops[2]))
	case *ssa.Lookup:
		e.lookup(fr, ci, in)
	case *ssa.Range:
		x := e.get(fr, &ci.ops[0])
		it := &iterV{}
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			if x.r != nil {
				it.m = x.r.(*MapV)
				if e.raceOn(fr) {
					e.accessed(fr, in, it.m, false)
				}
				for i := range it.m.keys {
					if it.m.live[i] {
						it.keys = append(it.keys, i)
					}
				}
			}
		} else {
			it.s = x
		}
		fr.regs[ci.dst] = Val{r: it}
	case *ssa.Next:
		it := e.get(fr, &ci.ops[0]).r.(*iterV)
		if it.m != nil && e.raceOn(fr) {
			e.accessed(fr, in, it.m, false)
		}
		fr.regs[ci.dst] = e.next(it, in)
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = e.typeAssert(e.get(fr, &ci.ops[0]), in)
	case *ssa.Panic:
		e.raise(e.get(fr, &ci.ops[0]))
		return
	case *ssa.Defer:
		fn, args := e.prepCall(fr, ci, &in.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args, inv: &in.Call})
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			e.startDefer(fr, d)
			return // re-execute
		}
	case *ssa.Go:
		fn, args := e.prepCall(fr, ci, &in.Call)
		ng := &Goroutine{id: len(e.gs)}
		e.gs = append(e.gs, ng)
		e.forked(e.cur, ng)
		save := e.cur
		e.cur = ng
		if !e.invoke(fn, args, -1, nil, func(Val) {}) {
			ng.dead = true
		}
		e.cur = save
	case *ssa.Send:
		fr.pc++
		e.chanSend(fr, e.get(fr, &ci.ops[0]), e.get(fr, &ci.ops[1]))
		return
	case *ssa.Select:
		fr.pc++
		e.selectStmt(fr, ci, in)
		return
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
	fr.pc++
}

type stepLimit struct{ msg string }

func (e *Exec) jump(fr *Frame, to int) {
	fr.prev = fr.blk
	fr.blk = to
	fr.pc = 0
}

func (e *Exec) phis(fr *Frame) {
	cb := &fr.cf.blocks[fr.blk]
	preds := fr.cf.fn.Blocks[fr.blk].Preds
	k := -1
	for i, p := range preds {
		if p.Index == fr.prev {
			k = i
			break
		}
	}
	n := cb.nphi
	var small [8]Val
	vals := small[:0]
	for i := 0; i < n; i++ {
		vals = append(vals, e.get(fr, &cb.ins[i].ops[k]))
	}
	for i := 0; i < n; i++ {
		fr.regs[cb.ins[i].dst] = vals[i]
	}
	fr.pc = n
}

func (e *Exec) ptr(v Val) *Val {
	p, ok := v.r.(*Val)
	if !ok {
		if v.r == nil {
			e.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		panic(unsupported{fmt.Sprintf("pointer %T", v.r)})
	}
	return p
}

func (e *Exec) unop(fr *Frame, ci *cinstr, in *ssa.UnOp) {
	x := e.get(fr, &ci.ops[0])
	switch in.Op {
	case token.MUL:
		p := e.ptr(x)
		if e.raceOn(fr) {
			e.touch(fr, in, p, false)
		}
		fr.regs[ci.dst] = copyVal(*p)
	case token.NOT:
		if t := x.sym(); t != nil {
			fr.regs[ci.dst] = termVal(e.ctx.Not(t))
		} else {
			fr.regs[ci.dst] = boolVal(x.c == 0)
		}
	case token.SUB:
		t := in.X.Type()
		if b := t.Underlying().(*types.Basic); b.Info()&types.IsFloat != 0 {
			if b.Kind() == types.Float32 {
				fr.regs[ci.dst] = Val{c: uint64(math.Float32bits(-math.Float32frombits(uint32(x.c))))}
			} else {
				fr.regs[ci.dst] = Val{c: math.Float64bits(-math.Float64frombits(x.c))}
			}
			return
		}
		if x.sym() != nil {
			fr.regs[ci.dst] = termVal(e.ctx.Bin(OpSub, e.ctx.BV(widthOf(t), 0), x.sym()))
		} else {
			fr.regs[ci.dst] = Val{c: -x.c & mask(widthOf(t))}
		}
	case token.XOR:
		t := in.X.Type()
		if x.sym() != nil {
			fr.regs[ci.dst] = termVal(e.ctx.Bin(OpBxor, x.sym(), e.ctx.BV(widthOf(t), ^uint64(0))))
		} else {
			fr.regs[ci.dst] = Val{c: ^x.c & mask(widthOf(t))}
		}
	case token.ARROW:
		fr.pc++
		e.chanRecv(fr, x, ci.dst, in.CommaOk)
		fr.pc--
	default:
		panic(unsupported{"unop " + in.Op.String()})
	}
}

func (e *Exec) binop(op token.Token, x, y Val, tx, ty types.Type) Val {
	switch op {
	case token.EQL:
		return termVal(e.eqTerm(x, y, eqType(tx, ty)))
	case token.NEQ:
		return termVal(e.ctx.Not(e.eqTerm(x, y, eqType(tx, ty))))
	}
	b, ok := tx.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"binop on " + tx.String()})
	}
	if b.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			xs, ok1 := x.r.(string)
			ys, ok2 := y.r.(string)
			if ok1 && ok2 {
				return strVal(xs + ys)
			}
			return mkStr(append(append([]Val{}, strEl(x)...), strEl(y)...))
		}
		c := e.cmpBytes(strEl(x), strEl(y))
		switch op {
		case token.LSS:
			return boolVal(c < 0)
		case token.LEQ:
			return boolVal(c <= 0)
		case token.GTR:
			return boolVal(c > 0)
		case token.GEQ:
			return boolVal(c >= 0)
		}
	}
	if b.Info()&types.IsFloat != 0 {
		return floatOp(op, x, y, b)
	}
	w := widthOf(tx)
	signed := isSigned(tx)
	if x.r == nil && y.r == nil {
		return e.concBin(op, x.c, y.c, w, signed, ty)
	}
	if w == 0 { // booleans: & | ^
		a, d := e.term(x, tx), e.term(y, ty)
		switch op {
		case token.AND, token.LAND:
			return termVal(e.ctx.And(a, d))
		case token.OR, token.LOR:
			return termVal(e.ctx.Or(a, d))
		}
		panic(unsupported{"bool op"})
	}
	a := e.term(x, tx)
	d := e.term(y, ty)
	switch op {
	case token.SHL, token.SHR:
		// shift count: unsigned or signed non-negative of any width
		if isSigned(ty) {
			if y.r != nil {
				if e.branch(e.ctx.Cmp(OpSlt, d, e.ctx.BV(d.s.w, 0))) {
					e.goPanic("runtime error: negative shift amount")
				}
			} else if sext(y.c, widthOf(ty)) < 0 {
				e.goPanic("runtime error: negative shift amount")
			}
		}
		o := OpShl
		if op == token.SHR {
			o = OpLshr
			if signed {
				o = OpAshr
			}
		}
		if d.s.w > w {
			// saturate
			big := e.ctx.Cmp(OpUlt, e.ctx.BV(d.s.w, uint64(w)), d)
			d = e.ctx.Ite(big, e.ctx.BV(w, uint64(w)), e.ctx.Extract(d, w-1, 0))
		} else if d.s.w < w {
			d = e.ctx.Zext(d, w)
		}
		return termVal(e.ctx.Bin(o, a, d))
	}
	cx := e.ctx
	switch op {
	case token.ADD:
		return termVal(cx.Bin(OpAdd, a, d))
	case token.SUB:
		return termVal(cx.Bin(OpSub, a, d))
	case token.MUL:
		return termVal(cx.Bin(OpMul, a, d))
	case token.AND:
		return termVal(cx.Bin(OpBand, a, d))
	case token.OR:
		return termVal(cx.Bin(OpBor, a, d))
	case token.XOR:
		return termVal(cx.Bin(OpBxor, a, d))
	case token.AND_NOT:
		return termVal(cx.Bin(OpBand, a, cx.Bin(OpBxor, d, cx.BV(w, ^uint64(0)))))
	case token.QUO, token.REM:
		z := cx.Eq(d, cx.BV(w, 0))
		if !z.isFalse() && e.branch(z) {
			e.goPanic("runtime error: integer divide by zero")
		}
		o := OpUdiv
		switch {
		case op == token.QUO && signed:
			o = OpSdiv
		case op == token.REM && signed:
			o = OpSrem
		case op == token.REM:
			o = OpUrem
		}
		return termVal(cx.Bin(o, a, d))
	case token.LSS:
		return termVal(cx.Cmp(lt(signed), a, d))
	case token.LEQ:
		return termVal(cx.Not(cx.Cmp(lt(signed), d, a)))
	case token.GTR:
		return termVal(cx.Cmp(lt(signed), d, a))
	case token.GEQ:
		return termVal(cx.Not(cx.Cmp(lt(signed), a, d)))
	}
	panic(unsupported{"binop " + op.String()})
}

// eqType picks the comparison type: comparing an interface with a concrete value
// never happens in SSA (it is converted first).
func eqType(a, b types.Type) types.Type {
	if bb, ok := a.Underlying().(*types.Basic); ok && bb.Kind() == types.UntypedNil {
		return b
	}
	return a
}

func lt(signed bool) Op {
	if signed {
		return OpSlt
	}
	return OpUlt
}

func (e *Exec) concBin(op token.Token, x, y uint64, w uint8, signed bool, ty types.Type) Val {
	m := mask(w)
	if w == 0 {
		switch op {
		case token.AND, token.LAND:
			return Val{c: x & y}
		case token.OR, token.LOR:
			return Val{c: x | y}
		}
	}
	sx, sy := sext(x, w), sext(y, w)
	switch op {
	case token.ADD:
		return Val{c: (x + y) & m}
	case token.SUB:
		return Val{c: (x - y) & m}
	case token.MUL:
		return Val{c: (x * y) & m}
	case token.AND:
		return Val{c: x & y}
	case token.OR:
		return Val{c: x | y}
	case token.XOR:
		return Val{c: x ^ y}
	case token.AND_NOT:
		return Val{c: x &^ y}
	case token.QUO, token.REM:
		if y == 0 {
			e.goPanic("runtime error: integer divide by zero")
		}
		o := OpUdiv
		switch {
		case op == token.QUO && signed:
			o = OpSdiv
		case op == token.REM && signed:
			o = OpSrem
		case op == token.REM:
			o = OpUrem
		}
		v, _ := foldBin(o, w, x, y)
		return Val{c: v & m}
	case token.SHL:
		if isSigned(ty) && sext(y, widthOf(ty)) < 0 {
			e.goPanic("runtime error: negative shift amount")
		}
		if y >= uint64(w) {
			return Val{}
		}
		return Val{c: (x << y) & m}
	case token.SHR:
		if isSigned(ty) && sext(y, widthOf(ty)) < 0 {
			e.goPanic("runtime error: negative shift amount")
		}
		if signed {
			if y >= 64 {
				y = 63
			}
			return Val{c: uint64(sx>>y) & m}
		}
		if y >= uint64(w) {
			return Val{}
		}
		return Val{c: x >> y}
	case token.LSS:
		if signed {
			return boolVal(sx < sy)
		}
		return boolVal(x < y)
	case token.LEQ:
		if signed {
			return boolVal(sx <= sy)
		}
		return boolVal(x <= y)
	case token.GTR:
		if signed {
			return boolVal(sx > sy)
		}
		return boolVal(x > y)
	case token.GEQ:
		if signed {
			return boolVal(sx >= sy)
		}
		return boolVal(x >= y)
	}
	panic(unsupported{"concBin " + op.String()})
}

func floatOp(op token.Token, x, y Val, b *types.Basic) Val {
	if x.r != nil || y.r != nil {
		panic(unsupported{"symbolic float"})
	}
	get := func(v Val) float64 {
		if b.Kind() == types.Float32 {
			return float64(math.Float32frombits(uint32(v.c)))
		}
		return math.Float64frombits(v.c)
	}
	put := func(f float64) Val {
		if b.Kind() == types.Float32 {
			return Val{c: uint64(math.Float32bits(float32(f)))}
		}
		return Val{c: math.Float64bits(f)}
	}
	a, d := get(x), get(y)
	switch op {
	case token.ADD:
		return put(a + d)
	case token.SUB:
		return put(a - d)
	case token.MUL:
		return put(a * d)
	case token.QUO:
		return put(a / d)
	case token.LSS:
		return boolVal(a < d)
	case token.LEQ:
		return boolVal(a <= d)
	case token.GTR:
		return boolVal(a > d)
	case token.GEQ:
		return boolVal(a >= d)
	}
	panic(unsupported{"float op"})
}

// cmpBytes compares lexicographically, forking when needed.
func (e *Exec) cmpBytes(a, b []Val) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := a[i], b[i]
		if x.r == nil && y.r == nil {
			if x.c != y.c {
				if x.c < y.c {
					return -1
				}
				return 1
			}
			continue
		}
		tx, ty := e.byteTerm(x), e.byteTerm(y)
		if e.branch(e.ctx.Eq(tx, ty)) {
			continue
		}
		if e.branch(e.ctx.Cmp(OpUlt, tx, ty)) {
			return -1
		}
		return 1
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func (e *Exec) indexAddr(fr *Frame, ci *cinstr, in *ssa.IndexAddr) {
	x := e.get(fr, &ci.ops[0])
	iv := e.get(fr, &ci.ops[1])
	var a []Val
	switch in.X.Type().Underlying().(type) {
	case *types.Slice:
		if x.r != nil {
			s, ok := x.r.(*SliceV)
			if !ok {
				panic(unsupported{fmt.Sprintf("index of %T", x.r)})
			}
			a = s.a
		}
	default: // pointer to array
		a = e.ptr(x).r.(*ArrV).a
	}
	i := e.checkIndex(iv, in.Index.Type(), len(a))
	fr.regs[ci.dst] = Val{r: &a[i]}
}

// checkIndex panics (in the Go sense) when out of range, and concretises.
func (e *Exec) checkIndex(iv Val, t types.Type, n int) int {
	if iv.r == nil {
		i := iv.c
		if isSigned(t) {
			si := sext(i, widthOf(t))
			if si < 0 || si >= int64(n) {
				e.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", si, n))
			}
			return int(si)
		}
		if i >= uint64(n) {
			e.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	tm := iv.sym()
	w := tm.s.w
	if !(w < 63 && uint64(n) > mask(w) && !isSigned(t)) {
		ok := e.ctx.Cmp(OpUlt, tm, e.ctx.BV(w, uint64(n)))
		if uint64(n) > mask(w) {
			ok = e.ctx.Not(e.ctx.Cmp(OpSlt, tm, e.ctx.BV(w, 0)))
		}
		if !e.branch(ok) {
			e.goPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
		}
	}
	return int(e.concretize(tm, 300))
}

func (e *Exec) index(fr *Frame, ci *cinstr, in *ssa.Index) {
	x := e.get(fr, &ci.ops[0])
	iv := e.get(fr, &ci.ops[1])
	switch s := x.r.(type) {
	case *ArrV:
		i := e.checkIndex(iv, in.Index.Type(), len(s.a))
		fr.regs[ci.dst] = copyVal(s.a[i])
	case string:
		i := e.checkIndex(iv, in.Index.Type(), len(s))
		fr.regs[ci.dst] = Val{c: uint64(s[i])}
	case *SymStr:
		i := e.checkIndex(iv, in.Index.Type(), len(s.el))
		fr.regs[ci.dst] = s.el[i]
	default:
		panic(unsupported{fmt.Sprintf("index %T", x.r)})
	}
}

func (e *Exec) lookup(fr *Frame, ci *cinstr, in *ssa.Lookup) {
	x := e.get(fr, &ci.ops[0])
	k := e.get(fr, &ci.ops[1])
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		el := strEl(x)
		i := e.checkIndex(k, in.Index.Type(), len(el))
		fr.regs[ci.dst] = el[i]
		return
	}
	v := zero(mt.Elem())
	found := false
	if x.r != nil {
		m := x.r.(*MapV)
		if e.raceOn(fr) {
			e.accessed(fr, in, m, false)
		}
		if i := e.mapFind(m, k); i >= 0 {
			v, found = copyVal(m.vals[i]), true
		}
	}
	if in.CommaOk {
		fr.regs[ci.dst] = Val{r: &StructV{f: []Val{v, boolVal(found)}}}
	} else {
		fr.regs[ci.dst] = v
	}
}

func (e *Exec) next(it *iterV, in *ssa.Next) Val {
	if in.IsString {
		if s, ok := it.s.r.(string); ok {
			if it.pos >= len(s) {
				return Val{r: &StructV{f: []Val{{}, {}, {}}}}
			}
			p := it.pos
			for i, r := range s[p:] {
				if i == 0 {
					n := len(string(r))
					if r == 0xFFFD {
						n = 1
						if strings.HasPrefix(s[p:], "\uFFFD") {
							n = 3
						}
					}
					it.pos += n
					return Val{r: &StructV{f: []Val{{c: 1}, intVal(int64(p)), {c: uint64(uint32(r))}}}}
				}
			}
		}
		el := strEl(it.s)
		if it.pos >= len(el) {
			return Val{r: &StructV{f: []Val{{}, {}, {}}}}
		}
		b := el[it.pos]
		if t := b.sym(); t != nil {
			if !e.branch(e.ctx.Cmp(OpUlt, t, e.ctx.BV(8, 0x80))) {
				panic(unsupported{"range over symbolic non-ASCII string"})
			}
			b = termVal(e.ctx.Zext(t, 32))
		}
		p := it.pos
		it.pos++
		return Val{r: &StructV{f: []Val{{c: 1}, intVal(int64(p)), b}}}
	}
	for it.pos < len(it.keys) {
		i := it.keys[it.pos]
		it.pos++
		if it.m.live[i] {
			return Val{r: &StructV{f: []Val{{c: 1}, copyVal(it.m.keys[i]), copyVal(it.m.vals[i])}}}
		}
	}
	tt := in.Type().(*types.Tuple)
	return Val{r: &StructV{f: []Val{{}, zeroOr(tt.At(1).Type()), zeroOr(tt.At(2).Type())}}}
}

func zeroOr(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Val{}
	}
	return zero(t)
}

func (e *Exec) slice(fr *Frame, ci *cinstr, in *ssa.Slice) Val {
	x := e.get(fr, &ci.ops[0])
	opt := func(i int, t func() types.Type) (int, bool) {
		if ci.ops[i].k == okNone {
			return 0, false
		}
		return int(e.concInt(e.get(fr, &ci.ops[i]), t(), "slice bound")), true
	}
	lo, _ := opt(1, func() types.Type { return in.Low.Type() })
	hi, hasHi := opt(2, func() types.Type { return in.High.Type() })
	mx, hasMax := opt(3, func() types.Type { return in.Max.Type() })
	if _, ok := in.X.Type().Underlying().(*types.Basic); ok { // string
		n := strLen(x)
		if !hasHi {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			e.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		if s, ok := x.r.(string); ok {
			return strVal(s[lo:hi])
		}
		return mkStr(strEl(x)[lo:hi])
	}
	var a []Val
	isNil := false
	switch in.X.Type().Underlying().(type) {
	case *types.Slice:
		if x.r == nil {
			isNil = true
		} else {
			a = x.r.(*SliceV).a
		}
	default:
		a = e.ptr(x).r.(*ArrV).a
	}
	if !hasHi {
		hi = len(a)
	}
	if !hasMax {
		mx = cap(a)
	}
	if lo < 0 || hi < lo || mx < hi || mx > cap(a) {
		e.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, cap(a)))
	}
	if isNil {
		return Val{}
	}
	return Val{r: &SliceV{a: a[lo:hi:mx]}}
}

func (e *Exec) typeAssert(x Val, in *ssa.TypeAssert) Val {
	ok := false
	var v Val
	if iv, is := x.r.(*IfaceV); is {
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if e.prog.implements(iv.t, in.AssertedType) {
				ok, v = true, x
			}
		} else if types.Identical(iv.t, in.AssertedType) {
			ok, v = true, copyVal(iv.v)
		}
	}
	if in.CommaOk {
		if !ok {
			v = zero(in.AssertedType)
		}
		return Val{r: &StructV{f: []Val{v, boolVal(ok)}}}
	}
	if !ok {
		e.goPanic("interface conversion: " + in.String())
	}
	return v
}

func (e *Exec) convert(x Val, from, to types.Type) Val {
	uf, ut := from.Underlying(), to.Underlying()
	switch t := ut.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch f := uf.(type) {
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return x
				}
				if x.r != nil {
					panic(unsupported{"string(symbolic rune)"})
				}
				return strVal(string(rune(sext(x.c, widthOf(from)))))
			case *types.Slice:
				if widthOf(f.Elem()) == 8 {
					return mkStr(bytesOf(x))
				}
				var sb strings.Builder
				for _, c := range bytesOf(x) {
					if c.r != nil {
						panic(unsupported{"string(symbolic runes)"})
					}
					sb.WriteRune(rune(int32(c.c)))
				}
				return strVal(sb.String())
			}
		case t.Kind() == types.UnsafePointer:
			return x
		case t.Info()&types.IsFloat != 0:
			if x.r != nil {
				panic(unsupported{"symbolic to float"})
			}
			var f float64
			fb := uf.(*types.Basic)
			switch {
			case fb.Kind() == types.Float32:
				f = float64(math.Float32frombits(uint32(x.c)))
			case fb.Info()&types.IsFloat != 0:
				f = math.Float64frombits(x.c)
			case isSigned(from):
				f = float64(sext(x.c, widthOf(from)))
			default:
				f = float64(x.c)
			}
			if t.Kind() == types.Float32 {
				return Val{c: uint64(math.Float32bits(float32(f)))}
			}
			return Val{c: math.Float64bits(f)}
		case t.Info()&types.IsInteger != 0:
			fb, ok := uf.(*types.Basic)
			if !ok {
				break
			}
			if fb.Info()&types.IsFloat != 0 {
				f := math.Float64frombits(x.c)
				if fb.Kind() == types.Float32 {
					f = float64(math.Float32frombits(uint32(x.c)))
				}
				if isSigned(to) {
					return Val{c: uint64(int64(f)) & mask(widthOf(to))}
				}
				return Val{c: uint64(f) & mask(widthOf(to))}
			}
			if fb.Kind() == types.UnsafePointer {
				panic(unsupported{"pointer to integer"})
			}
			w := widthOf(to)
			if s := x.sym(); s != nil {
				return termVal(e.ctx.Resize(s, w, isSigned(from)))
			}
			if isSigned(from) {
				return Val{c: uint64(sext(x.c, widthOf(from))) & mask(w)}
			}
			return Val{c: x.c & mask(w)}
		}
	case *types.Slice:
		if f, ok := uf.(*types.Basic); ok && f.Info()&types.IsString != 0 {
			if widthOf(t.Elem()) == 8 {
				return Val{r: &SliceV{a: append([]Val{}, strEl(x)...)}}
			}
			s, ok := x.r.(string)
			if !ok {
				panic(unsupported{"[]rune(symbolic)"})
			}
			var a []Val
			for _, r := range s {
				a = append(a, Val{c: uint64(uint32(r))})
			}
			return Val{r: &SliceV{a: a}}
		}
		return x
	case *types.Pointer:
		return x
	case *types.Array:
		if _, ok := uf.(*types.Slice); ok {
			s := bytesOf(x)
			if len(s) < int(t.Len()) {
				e.goPanic("runtime error: cannot convert slice to array")
			}
			return copyVal(Val{r: &ArrV{a: s[:t.Len()]}})
		}
	}
	return x
}

// concInt concretises an integer value.
func (e *Exec) concInt(v Val, t types.Type, what string) int64 {
	if s := v.sym(); s != nil {
		u := e.concretize(s, 300)
		if isSigned(t) {
			return sext(u, s.s.w)
		}
		return int64(u)
	}
	if isSigned(t) {
		return sext(v.c, widthOf(t))
	}
	return int64(v.c)
}

func (e *Exec) prepCall(fr *Frame, ci *cinstr, c *ssa.CallCommon) (Val, []Val) {
	if c.IsInvoke() {
		recv := e.get(fr, &ci.ops[0])
		args := make([]Val, 1, len(ci.ops))
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, copyVal(e.get(fr, &ci.ops[i])))
		}
		if recv.r == nil {
			e.goPanic("runtime error: invalid memory address or nil pointer dereference (nil interface)")
		}
		iv, ok := recv.r.(*IfaceV)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", recv.r)})
		}
		if iv.t == e.w.rtErr && c.Method.Name() == "Error" {
			return Val{r: &NativeFn{name: "rtErr", f: func(*Exec, []Val) Val { return iv.v }}}, nil
		}
		mk := methKey{iv.t, c.Method}
		f, hit := e.w.meths[mk]
		if !hit {
			f = e.prog.method(iv.t, c.Method.Pkg(), c.Method.Name())
			e.w.meths[mk] = f
		}
		if f == nil {
			panic(unsupported{"no method " + iv.t.String() + "." + c.Method.Name()})
		}
		args[0] = copyVal(iv.v)
		return Val{r: f}, args
	}
	fn := e.get(fr, &ci.ops[0])
	args := make([]Val, 0, len(ci.ops)-1)
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, copyVal(e.get(fr, &ci.ops[i])))
	}
	return fn, args
}

func (e *Exec) call(fr *Frame, ci *cinstr, c *ssa.CallCommon) {
	fn, args := e.prepCall(fr, ci, c)
	if b, ok := fn.r.(*ssa.Builtin); ok {
		v := e.builtin(fr, b, args, ci, c)
		if ci.dst >= 0 {
			fr.regs[ci.dst] = v
		}
		return
	}
	if e.trace {
		fmt.Fprintf(os.Stderr, "%*scall %v\n", len(e.cur.frames), "", calleeName(fn))
	}
	e.invoke(fn, args, ci.dst, nil, nil)
}

func calleeName(v Val) string {
	switch f := v.r.(type) {
	case *ssa.Function:
		return f.String()
	case *Closure:
		return f.fn.String()
	}
	return fmt.Sprintf("%T", v.r)
}

var gcSizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Uint8 {
		return 1
	}
	return int(gcSizes.Sizeof(t))
}

// growCap mimics the runtime's growth for the common element sizes.
func growCap(esz, oldLen, oldCap, add int) int {
	switch {
	case esz == 1:
		return cap(append(make([]byte, oldLen, oldCap), make([]byte, add)...))
	case esz == 8:
		return cap(append(make([]uint64, oldLen, oldCap), make([]uint64, add)...))
	case esz == 16:
		return cap(append(make([][2]uint64, oldLen, oldCap), make([][2]uint64, add)...))
	case esz == 24:
		return cap(append(make([][3]uint64, oldLen, oldCap), make([][3]uint64, add)...))
	}
	n := oldLen + add
	if n < 2*oldCap {
		n = 2 * oldCap
	}
	return n
}

func (e *Exec) appendVals(x Val, add []Val, st types.Type) Val {
	var a []Val
	if x.r != nil {
		a = x.r.(*SliceV).a
	}
	if len(add) == 0 {
		return x
	}
	n := len(a) + len(add)
	if n <= cap(a) {
		b := a[:n]
		// copy with memmove semantics
		tmp := add
		if len(add) > 1 && &add[0] != &b[len(a)] {
			lo, hi := uintptr(unsafe.Pointer(&b[len(a)])), uintptr(unsafe.Pointer(&b[n-1]))
			if x := uintptr(unsafe.Pointer(&add[0])); x <= hi && x+uintptr(len(add)-1)*unsafe.Sizeof(b[0]) >= lo {
				tmp = append([]Val(nil), add...)
			}
		}
		for i, v := range tmp {
			e.store(&b[len(a)+i], v)
		}
		return Val{r: &SliceV{a: b}}
	}
	esz := sizeof(st.Underlying().(*types.Slice).Elem())
	gk := [3]int{esz, cap(a), n}
	nc, hit := e.w.grow[gk]
	if !hit {
		nc = growCap(esz, len(a), cap(a), len(add))
		e.w.grow[gk] = nc
	}
	b := make([]Val, n, nc)
	for i := range a {
		b[i] = copyVal(a[i])
	}
	for i, v := range add {
		b[len(a)+i] = copyVal(v)
	}
	if nc > n {
		el := st.Underlying().(*types.Slice).Elem()
		if !simpleZero(el) {
			full := b[:nc]
			for i := n; i < nc; i++ {
				full[i] = zero(el)
			}
		}
	}
	return Val{r: &SliceV{a: b}}
}

func (e *Exec) builtin(fr *Frame, b *ssa.Builtin, args []Val, ci *cinstr, c *ssa.CallCommon) Val {
	if ci != nil && e.raceOn(fr) {
		e.raceBuiltin(fr, b.Name(), args, ci.in)
	}
	switch b.Name() {
	case "len":
		switch x := args[0].r.(type) {
		case nil:
			return Val{}
		case string:
			return intVal(int64(len(x)))
		case *SymStr:
			return intVal(int64(len(x.el)))
		case *SliceV:
			return intVal(int64(len(x.a)))
		case *MapV:
			return intVal(int64(x.n))
		case *ChanV:
			return intVal(int64(len(x.buf)))
		case *ArrV:
			return intVal(int64(len(x.a)))
		case *Val:
			return intVal(int64(len(x.r.(*ArrV).a)))
		}
	case "cap":
		switch x := args[0].r.(type) {
		case nil:
			return Val{}
		case *SliceV:
			return intVal(int64(cap(x.a)))
		case *ChanV:
			return intVal(int64(x.cap))
		case *ArrV:
			return intVal(int64(len(x.a)))
		case *Val:
			return intVal(int64(len(x.r.(*ArrV).a)))
		}
	case "append":
		var add []Val
		switch y := args[1].r.(type) {
		case nil:
		case *SliceV:
			add = y.a
		default:
			add = strEl(args[1])
		}
		return e.appendVals(args[0], add, c.Args[0].Type())
	case "copy":
		if args[0].r == nil {
			return Val{}
		}
		d := args[0].r.(*SliceV).a
		var s []Val
		switch y := args[1].r.(type) {
		case nil:
		case *SliceV:
			s = y.a
		default:
			s = strEl(args[1])
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := append([]Val(nil), s[:n]...)
		for i := 0; i < n; i++ {
			e.store(&d[i], tmp[i])
		}
		return intVal(int64(n))
	case "delete":
		if args[0].r != nil {
			e.mapDelete(args[0].r.(*MapV), args[1])
		}
		return Val{}
	case "panic":
		panic(goPanicked{args[0]})
	case "recover":
		p := fr.deferOf
		if p != nil && p.panicking && !p.recovered {
			p.recovered = true
			return p.pval
		}
		return Val{}
	case "close":
		e.chanClose(args[0])
		return Val{}
	case "print", "println":
		return Val{}
	case "min", "max":
		v := args[0]
		t := c.Args[0].Type()
		for _, y := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			l := e.binop(op, y, v, t, t)
			if s := l.sym(); s != nil {
				v = termVal(e.ctx.Ite(s, e.term(y, t), e.term(v, t)))
			} else if l.c != 0 {
				v = y
			}
		}
		return v
	case "clear":
		switch x := args[0].r.(type) {
		case *MapV:
			for i := range x.keys {
				if x.live[i] {
					e.mapDelete(x, x.keys[i])
				}
			}
		case *SliceV:
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				e.store(&x.a[i], zero(el))
			}
		}
		return Val{}
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			e.goPanic("runtime error: invalid memory address or nil pointer dereference (value method on nil pointer)")
		}
		return args[0]
	}
	panic(unsupported{"builtin " + b.Name()})
}
