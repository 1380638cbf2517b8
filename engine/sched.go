package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// schedule runs goroutines until the main one ends.
func (e *Exec) schedule() {
	for {
		main := e.gs[0]
		if main.dead || len(main.frames) == 0 {
			return
		}
		if e.preempt {
			e.preempt = false
			if e.nextG != nil {
				e.switchTo(e.nextG)
				e.nextG = nil
			}
		}
		g := e.cur
		if g != nil && !g.blocked && !g.dead && len(g.frames) > 0 {
			e.stepSafe()
			continue
		}
		e.pick()
	}
}

func (g *Goroutine) runnable() bool {
	if g.dead {
		return false
	}
	if g.blocked {
		return g.ready != nil && g.ready()
	}
	return len(g.frames) > 0
}

func (e *Exec) switchTo(g *Goroutine) {
	e.cur = g
	if g.blocked {
		g.blocked = false
		f := g.wakeVal
		g.wakeVal, g.ready = nil, nil
		if f != nil {
			f()
		}
	}
}

func (e *Exec) pick() {
	var rs []*Goroutine
	start := 0
	if e.cur != nil && e.cur.id >= 0 {
		start = e.cur.id
	}
	n := len(e.gs)
	for i := 1; i <= n; i++ {
		g := e.gs[(start+i)%n]
		if g.runnable() {
			rs = append(rs, g)
		}
	}
	var ts []*ChanV
	live := e.timers[:0:0]
	for _, t := range e.timers { // those that end first
		if !t.timer {
			continue
		}
		live = append(live, t)
		if !anyActive(t.recvq) {
			continue
		}
		if len(ts) > 0 && t.deadline < ts[0].deadline {
			ts = ts[:0]
		}
		if len(ts) == 0 || t.deadline == ts[0].deadline {
			ts = append(ts, t)
		}
	}
	e.timers = live
	if len(rs) == 0 && len(ts) == 0 {
		e.fail("deadlock", "all goroutines are blocked")
	}
	if len(rs) == 0 {
		i := 0
		if len(ts) > 1 {
			i = e.choose(len(ts))
		}
		e.fire(ts[i])
		return
	}
	if e.exploreOn {
		k := e.choose(len(rs) + len(ts))
		if k >= len(rs) {
			e.fire(ts[k-len(rs)])
			return
		}
		e.switchTo(rs[k])
		return
	}
	e.switchTo(rs[0])
}

func anyActive(ws []*waiter) bool {
	for _, w := range ws {
		if w.token == nil || !*w.token {
			return true
		}
	}
	return false
}

// fire makes a timer channel deliver.
func (e *Exec) fire(t *ChanV) {
	t.timer = false
	if t.deadline > e.clock {
		e.clock = t.deadline
	}
	v := e.timeNow()
	if w := popWaiter(&t.recvq); w != nil {
		e.wake(w, v, true)
		return
	}
	t.buf = append(t.buf, v)
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.token == nil || !*w.token {
			return w
		}
	}
	return nil
}

func (e *Exec) wake(w *waiter, v Val, ok bool) {
	if w.token != nil {
		*w.token = true
	}
	w.g.blocked = false
	w.g.ready, w.g.wakeVal = nil, nil
	if w.deliver != nil {
		w.deliver(v, ok)
	}
}

// Switch is a place where a goroutine was preempted.
type Switch struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Col   int    `json:"col"`
	Hit   int    `json:"hit"`   // the how manieth time it is reached
	After bool   `json:"after"` // after the operation, rather than before
	Exit  bool   `json:"exit"`  // in what the function has deferred
}

// switchAt gives the statement of the code under test or the harness that g is in.
func (e *Exec) switchAt(g *Goroutine, after bool) Switch {
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		if !fr.cf.anchor || fr.last == nil {
			continue
		}
		s := Switch{After: after, Hit: e.hits[fr.last]}
		p := fr.last.in.Pos()
		if _, ok := fr.last.in.(*ssa.RunDefers); ok {
			s.Exit, s.Hit = true, e.hits[&fr.cf.blocks[0].ins[0]]
			p = fr.cf.fn.Pos()
		}
		if !p.IsValid() {
			continue
		}
		q := e.prog.ssa.Fset.Position(p)
		s.File, s.Line, s.Col = q.Filename, q.Line, q.Column
		return s
	}
	return Switch{}
}

// yieldPoint lets another goroutine run before a visible operation.
func (e *Exec) yieldPoint() { e.yield(false) }

// yieldAfter does so after it.
func (e *Exec) yieldAfter() { e.yield(true) }

func (e *Exec) yield(after bool) {
	if !e.exploreOn || e.explore <= 0 || e.cur == nil || e.cur.sync || e.inInit {
		return
	}
	var rs []*Goroutine
	for _, g := range e.gs {
		if g != e.cur && g.runnable() {
			rs = append(rs, g)
		}
	}
	if len(rs) == 0 {
		return
	}
	k := e.choose(len(rs) + 1)
	if k == 0 {
		return
	}
	e.explore--
	e.switches = append(e.switches, e.switchAt(e.cur, after))
	e.preempt = true
	e.nextG = rs[k-1]
}

// settle lets the others run until none of them can.
func (e *Exec) settle() {
	me := e.cur
	me.settling = true
	e.block(func() bool {
		for _, g := range e.gs {
			if !g.settling && g.runnable() {
				return false
			}
		}
		return true
	}, func() { me.settling = false })
}

func (e *Exec) block(ready func() bool, wake func()) {
	if e.cur.sync {
		panic(unsupported{"blocking in a synchronous callback"})
	}
	e.cur.blocked = true
	e.cur.ready = ready
	e.cur.wakeVal = wake
}

func (e *Exec) chanOf(v Val) *ChanV {
	if v.r == nil {
		return nil
	}
	c, ok := v.r.(*ChanV)
	if !ok {
		panic(unsupported{fmt.Sprintf("channel %T", v.r)})
	}
	return c
}

func (e *Exec) chanSend(fr *Frame, cv, v Val) {
	c := e.chanOf(cv)
	if c == nil {
		e.block(nil, nil)
		return
	}
	if c.closed {
		e.goPanic("send on closed channel")
	}
	e.yieldPoint()
	if w := popWaiter(&c.recvq); w != nil {
		e.handOver(c, w)
		e.wake(w, copyVal(v), true)
		return
	}
	if len(c.buf) < c.cap {
		e.put(c, v)
		return
	}
	g := e.cur
	e.block(nil, nil)
	c.sendq = append(c.sendq, &waiter{g: g, val: copyVal(v), vc: e.clockOf(g)})
}

func (e *Exec) tryRecv(c *ChanV) (v Val, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]Val(nil), c.buf[1:]...)
		if e.race != nil && len(c.clocks) > 0 {
			e.learn(e.cur, c.clocks[0])
			c.clocks = append([]vclock(nil), c.clocks[1:]...)
			e.release(e.cur, c)
		}
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			if e.race != nil {
				c.clocks = append(c.clocks, w.vc)
				e.acquire(w.g, c)
			}
			e.wake(w, Val{}, true)
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		v = w.val
		e.handOver(c, w)
		e.wake(w, Val{}, true)
		return v, true, true
	}
	if c.closed {
		e.acquire(e.cur, closing{c})
		return zero(c.et), false, true
	}
	return Val{}, false, false
}

func (e *Exec) chanRecv(fr *Frame, cv Val, dst int, commaOk bool) {
	c := e.chanOf(cv)
	if c == nil {
		e.block(nil, nil)
		return
	}
	put := func(v Val, ok bool) {
		if dst < 0 {
			return
		}
		if commaOk {
			v = Val{r: &StructV{f: []Val{v, boolVal(ok)}}}
		}
		fr.regs[dst] = v
	}
	e.yieldPoint()
	if v, ok, done := e.tryRecv(c); done {
		put(v, ok)
		return
	}
	g := e.cur
	e.block(nil, nil)
	c.recvq = append(c.recvq, &waiter{g: g, deliver: put, vc: e.clockOf(g)})
}

func (e *Exec) chanClose(cv Val) {
	c := e.chanOf(cv)
	if c == nil {
		e.goPanic("close of nil channel")
	}
	if c.closed {
		e.goPanic("close of closed channel")
	}
	c.closed = true
	e.release(e.cur, closing{c})
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		e.acquire(w.g, closing{c})
		e.wake(w, zero(c.et), false)
	}
	e.yieldAfter()
}

func (e *Exec) selectStmt(fr *Frame, ci *cinstr, in *ssa.Select) {
	type cs struct {
		c    *ChanV
		send bool
		v    Val
	}
	var cases []cs
	// operands are (chan, send) pairs in order
	oi := 0
	for _, st := range in.States {
		c := cs{c: e.chanOf(e.get(fr, &ci.ops[oi]))}
		oi++
		if st.Dir == types.SendOnly {
			c.send = true
			c.v = e.get(fr, &ci.ops[oi])
		}
		oi++
		cases = append(cases, c)
	}
	tt := in.Type().(*types.Tuple)
	finish := func(i int, v Val, ok bool) {
		s := &StructV{f: make([]Val, tt.Len())}
		s.f[0] = Val{c: uint64(int64(i))}
		s.f[1] = boolVal(ok)
		k := 2
		for j := range cases {
			if cases[j].send {
				continue
			}
			if j == i {
				s.f[k] = v
			} else {
				s.f[k] = zero(tt.At(k).Type())
			}
			k++
		}
		if ci.dst >= 0 {
			fr.regs[ci.dst] = Val{r: s}
		}
	}
	e.yieldPoint()
	var ready []int
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send {
			if c.c.closed || anyActive(c.c.recvq) || len(c.c.buf) < c.c.cap {
				ready = append(ready, i)
			}
		} else if len(c.c.buf) > 0 || anyActive(c.c.sendq) || c.c.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[e.choose(len(ready))]
		c := cases[i]
		if c.send {
			if c.c.closed {
				e.goPanic("send on closed channel")
			}
			if w := popWaiter(&c.c.recvq); w != nil {
				e.handOver(c.c, w)
				e.wake(w, copyVal(c.v), true)
			} else {
				e.put(c.c, c.v)
			}
			finish(i, Val{}, false)
			return
		}
		v, ok, _ := e.tryRecv(c.c)
		finish(i, v, ok)
		return
	}
	if !in.Blocking {
		finish(-1, Val{}, false)
		return
	}
	g := e.cur
	tok := new(bool)
	vc := e.clockOf(g)
	e.block(nil, nil)
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		i := i
		w := &waiter{g: g, token: tok, vc: vc, deliver: func(v Val, ok bool) { finish(i, v, ok) }}
		if c.send {
			w.val = copyVal(c.v)
			c.c.sendq = append(c.c.sendq, w)
		} else {
			c.c.recvq = append(c.c.recvq, w)
		}
	}
}
