package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races: with the parameter race=1, every access of the code under test
// to memory is ordered by the happens-before relation of the Go memory model
// (vector clocks), and two accesses without order, one of them a write, fail
// the path, whatever the values were.

type vclock []uint32

func (v *vclock) at(i int) uint32 {
	if i < len(*v) {
		return (*v)[i]
	}
	return 0
}

func (v *vclock) put(i int, c uint32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = c
}

func (v *vclock) join(o vclock) {
	for i, c := range o {
		if c > v.at(i) {
			v.put(i, c)
		}
	}
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

type access struct {
	g   int
	clk uint32
	at  string
}

type shadow struct {
	w  access // last write, at=="" if none
	rs []access
}

type raceState struct {
	cells map[any]*shadow
	syncs map[any]*vclock // what was released to a mutex, wait group, channel, atomic
	reads map[any]*vclock // what readers released to a lock
}

func (e *Exec) startRaces() {
	if e.w.cfg.Params["race"] == 1 {
		e.race = &raceState{cells: map[any]*shadow{}, syncs: map[any]*vclock{}, reads: map[any]*vclock{}}
	}
}

func (r *raceState) of(m map[any]*vclock, k any) *vclock {
	v := m[k]
	if v == nil {
		v = &vclock{}
		m[k] = v
	}
	return v
}

// self is the goroutine that a nested call acts for.
func (g *Goroutine) self() *Goroutine {
	for g != nil && g.owner != nil {
		g = g.owner
	}
	return g
}

// tick begins a new epoch of g.
func (g *Goroutine) tick() { g.vc.put(g.id, g.vc.at(g.id)+1) }

func (e *Exec) forked(parent, child *Goroutine) {
	if e.race == nil {
		return
	}
	if parent = parent.self(); parent != nil {
		child.vc = parent.vc.clone()
		parent.tick()
	}
	child.tick()
}

// release makes what g did so far known to whoever acquires k.
func (e *Exec) release(g *Goroutine, k any) {
	g = g.self()
	if e.race != nil && g != nil {
		e.race.of(e.race.syncs, k).join(g.vc)
		g.tick()
	}
}

func (e *Exec) acquire(g *Goroutine, k any) {
	g = g.self()
	if e.race != nil && g != nil {
		if v := e.race.syncs[k]; v != nil {
			g.vc.join(*v)
		}
	}
}

func (e *Exec) releaseRead(g *Goroutine, k any) {
	g = g.self()
	if e.race != nil && g != nil {
		e.race.of(e.race.reads, k).join(g.vc)
		g.tick()
	}
}

func (e *Exec) acquireReads(g *Goroutine, k any) {
	g = g.self()
	if e.race != nil && g != nil {
		if v := e.race.reads[k]; v != nil {
			g.vc.join(*v)
		}
	}
}

// clockOf is sent along with a message.
func (e *Exec) clockOf(g *Goroutine) vclock {
	g = g.self()
	if e.race == nil || g == nil {
		return nil
	}
	v := g.vc.clone()
	g.tick()
	return v
}

func (e *Exec) learn(g *Goroutine, v vclock) {
	g = g.self()
	if e.race != nil && g != nil {
		g.vc.join(v)
	}
}

// raceOn says whether accesses of this instruction count.
func (e *Exec) raceOn(fr *Frame) bool {
	return e.race != nil && !e.inInit && len(e.gs) > 1 && fr.cf.tracked
}

func tracked(fn *ssa.Function, repo string) bool {
	if of(fn, repo) {
		return true
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil {
		return false
	}
	p := pk.Pkg.Path()
	if p == harnessMod+"/models" { // of hashes
		return fn.Signature.Recv() != nil
	}
	return unshared[p]
}

// of says whether fn is in a package whose path starts with prefix.
func of(fn *ssa.Function, prefix string) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	return pk != nil && strings.HasPrefix(pk.Pkg.Path(), prefix)
}

// unshared are packages whose types their users have to lock themselves.
var unshared = map[string]bool{"bytes": true, "strings": true, "sort": true, "slices": true, "maps": true, "bufio": true,
	"container/list": true, "container/heap": true, "container/ring": true, "encoding/hex": true, "encoding/binary": true, "encoding/base64": true, "math/big": true}

// touch records an access to p and all the cells in it.
func (e *Exec) touch(fr *Frame, in ssa.Instruction, p *Val, write bool) {
	switch x := p.r.(type) {
	case *StructV:
		for i := range x.f {
			e.touch(fr, in, &x.f[i], write)
		}
	case *ArrV:
		for i := range x.a {
			if i == 64 {
				break
			}
			e.touch(fr, in, &x.a[i], write)
		}
	default:
		e.accessed(fr, in, p, write)
	}
}

func (e *Exec) accessed(fr *Frame, in ssa.Instruction, k any, write bool) {
	s := e.race.cells[k]
	if s == nil {
		s = &shadow{}
		e.race.cells[k] = s
	}
	g := e.cur.self()
	var other *access
	kind := "a write"
	if s.w.at != "" && s.w.g != g.id && s.w.clk > g.vc.at(s.w.g) {
		other = &s.w
	}
	if write {
		for i := range s.rs {
			if r := &s.rs[i]; r.g != g.id && r.clk > g.vc.at(r.g) {
				other, kind = r, "a read"
			}
		}
	}
	here := access{g: g.id, clk: g.vc.at(g.id), at: e.where(fr, in)}
	if other != nil {
		mine := "a read"
		if write {
			mine = "a write"
		}
		e.fail("race", fmt.Sprintf("data race: %s at %s and %s at %s are not ordered", kind, other.at, mine, here.at))
	}
	if write {
		s.w = here
		s.rs = s.rs[:0]
		return
	}
	for i := range s.rs {
		if s.rs[i].g == g.id {
			s.rs[i] = here
			return
		}
	}
	s.rs = append(s.rs, here)
}

func (e *Exec) where(fr *Frame, in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		p = fr.cf.fn.Pos()
	}
	q := e.prog.ssa.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, e.prog.repo+"/"), q.Line)
}

func (e *Exec) touchAll(fr *Frame, in ssa.Instruction, a []Val, write bool) {
	for i := range a {
		e.touch(fr, in, &a[i], write)
	}
}

func (e *Exec) raceBuiltin(fr *Frame, name string, args []Val, in ssa.Instruction) {
	switch name {
	case "len":
		if m, ok := args[0].r.(*MapV); ok {
			e.accessed(fr, in, m, false)
		}
	case "delete", "clear":
		switch x := args[0].r.(type) {
		case *MapV:
			e.accessed(fr, in, x, true)
		case *SliceV:
			e.touchAll(fr, in, x.a, true)
		}
	case "append":
		var n int
		if y, ok := args[1].r.(*SliceV); ok {
			e.touchAll(fr, in, y.a, false)
			n = len(y.a)
		} else if args[1].r != nil {
			n = len(strEl(args[1]))
		}
		if x, ok := args[0].r.(*SliceV); ok && n > 0 {
			if len(x.a)+n <= cap(x.a) {
				e.touchAll(fr, in, x.a[len(x.a):len(x.a)+n], true)
			} else {
				e.touchAll(fr, in, x.a, false)
			}
		}
	case "copy":
		d, ok := args[0].r.(*SliceV)
		if !ok {
			return
		}
		n := 0
		if s, ok := args[1].r.(*SliceV); ok {
			if n = len(s.a); n > len(d.a) {
				n = len(d.a)
			}
			e.touchAll(fr, in, s.a[:n], false)
		} else if args[1].r != nil {
			if n = len(strEl(args[1])); n > len(d.a) {
				n = len(d.a)
			}
		}
		e.touchAll(fr, in, d.a[:n], true)
	}
}

type closing struct{ c *ChanV }

// handOver orders a send and the receive that meet on c, of which w waited.
func (e *Exec) handOver(c *ChanV, w *waiter) {
	if e.race == nil {
		return
	}
	me := e.clockOf(e.cur)
	e.learn(e.cur, w.vc)
	e.learn(w.g, me)
}

// put buffers a value sent on c.
func (e *Exec) put(c *ChanV, v Val) {
	if e.race != nil {
		e.acquire(e.cur, c)
		c.clocks = append(c.clocks, e.clockOf(e.cur))
	}
	c.buf = append(c.buf, copyVal(v))
}

// locked orders the lock that e.cur has just taken after what was done under it before.
func (e *Exec) locked(mu Val, read bool) {
	if e.race == nil {
		return
	}
	k := e.ptr(mu)
	e.acquire(e.cur, k)
	if !read {
		e.acquireReads(e.cur, k)
	}
}

// atomic orders an atomic access to p.
func (e *Exec) atomic(p Val, write bool) {
	if e.race == nil {
		return
	}
	k := e.ptr(p)
	e.acquire(e.cur, k)
	if write {
		e.release(e.cur, k)
	}
}
