package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okNone opKind = iota
	okReg
	okConst
	okGlobal
)

type operand struct {
	k opKind
	i int
	v Val
	g *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []operand
	dst int
	t   types.Type // type used by the instruction kind
}

type cblock struct {
	ins  []cinstr
	nphi int
}

type cfn struct {
	fn     *ssa.Function
	nregs  int
	blocks []cblock
	recov  int

	tracked bool // its accesses count for data races
	anchor  bool // its statements are points of the schedule
}

// Prog is the loaded program, shared by workers.
type Prog struct {
	ssa                                     *ssa.Program
	mu                                      sync.RWMutex
	fns                                     map[*ssa.Function]*cfn
	mmu                                     sync.Mutex
	meths                                   map[string]*ssa.Function
	impl                                    sync.Map
	bmu                                     sync.Mutex
	built                                   map[*ssa.Package]bool
	used                                    sync.Map // *ssa.Function executed -> true
	repo                                    string
	pkgs                                    map[string]*ssa.Package
	notes                                   map[string]string
	nmu                                     sync.Mutex
	redirs                                  map[string]*ssa.Function
	errorString, wrapError, timeType, rtErr types.Type
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch b := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolVal(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			if b.Info()&types.IsUnsigned != 0 {
				return Val{c: c.Uint64() & mask(widthOf(b))}
			}
			return Val{c: uint64(c.Int64()) & mask(widthOf(b))}
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				return Val{c: uint64(math.Float32bits(float32(f)))}
			}
			return Val{c: math.Float64bits(f)}
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return strVal(constant.StringVal(c.Value))
			}
			return strVal(string(rune(c.Int64())))
		}
	case *types.TypeParam:
	}
	panic(unsupported{"constant " + c.String()})
}

func (p *Prog) compile(fn *ssa.Function) *cfn {
	p.mu.RLock()
	cf := p.fns[fn]
	p.mu.RUnlock()
	if cf != nil {
		return cf
	}
	p.bmu.Lock()
	defer p.bmu.Unlock()
	if fn.Blocks == nil {
		pk := fn.Pkg
		if pk == nil && fn.Origin() != nil {
			pk = fn.Origin().Pkg
		}
		if pk != nil && !p.built[pk] {
			p.built[pk] = true
			pk.Build()
		}
	}
	if fn.Blocks == nil {
		return nil
	}
	cf = &cfn{fn: fn, recov: -1, tracked: tracked(fn, p.repo), anchor: of(fn, p.repo) || of(fn, harnessMod+"/h")}
	regs := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		if i, ok := regs[v]; ok {
			return i
		}
		i := cf.nregs
		cf.nregs++
		regs[v] = i
		return i
	}
	for _, x := range fn.Params {
		alloc(x)
	}
	for _, x := range fn.FreeVars {
		alloc(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	opd := func(v ssa.Value) operand {
		switch x := v.(type) {
		case nil:
			return operand{}
		case *ssa.Const:
			return operand{k: okConst, v: constVal(x)}
		case *ssa.Global:
			return operand{k: okGlobal, g: x}
		case *ssa.Function:
			return operand{k: okConst, v: Val{r: x}}
		case *ssa.Builtin:
			return operand{k: okConst, v: Val{r: x}}
		}
		i, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %v", v, fn))
		}
		return operand{k: okReg, i: i}
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &cf.blocks[bi]
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.nphi++
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			var buf [8]*ssa.Value
			for _, o := range in.Operands(buf[:0]) {
				if o == nil || *o == nil {
					ci.ops = append(ci.ops, operand{})
					continue
				}
				ci.ops = append(ci.ops, opd(*o))
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fn.Recover != nil {
		cf.recov = fn.Recover.Index
	}
	p.mu.Lock()
	p.fns[fn] = cf
	p.mu.Unlock()
	return cf
}

// method finds the implementation of a method on a concrete type.
func (p *Prog) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	key := t.String() + "." + name
	if pkg != nil && !isExported(name) {
		key += "@" + pkg.Path()
	}
	p.mmu.Lock()
	defer p.mmu.Unlock()
	if f, ok := p.meths[key]; ok {
		return f
	}
	p.bmu.Lock()
	defer p.bmu.Unlock()
	ms := p.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		p.meths[key] = nil
		return nil
	}
	f := p.ssa.MethodValue(sel)
	p.meths[key] = f
	return f
}

func isExported(n string) bool { return len(n) > 0 && n[0] >= 'A' && n[0] <= 'Z' }

type implKey struct {
	t types.Type
	i *types.Interface
}

func (p *Prog) implements(t types.Type, it types.Type) bool {
	i := it.Underlying().(*types.Interface)
	k := t.String() + "=>" + it.String()
	if v, ok := p.impl.Load(k); ok {
		return v.(bool)
	}
	p.mmu.Lock()
	defer p.mmu.Unlock()
	v := types.Implements(t, i)
	p.impl.Store(k, v)
	return v
}
