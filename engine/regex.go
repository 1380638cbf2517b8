package main

import (
	"regexp"
	"regexp/syntax"
	"sort"
	"sync"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Regular expressions: the library's own matcher runs natively. A compiled expression
// is a regexp.Regexp with nothing but its source in it. A string with symbolic bytes
// is first narrowed, byte by byte, to a case in which every instruction the matcher
// could look at the byte with gives one answer; any string of that case then stands
// for all of them.

var regexCache sync.Map

func compiled(expr string) (*regexp.Regexp, error) {
	if r, ok := regexCache.Load(expr); ok {
		return r.(*regexp.Regexp), nil
	}
	r, err := regexp.Compile(expr)
	if err == nil {
		regexCache.Store(expr, r)
	}
	return r, err
}

var progCache sync.Map

func program(expr string) *syntax.Prog {
	if p, ok := progCache.Load(expr); ok {
		return p.(*syntax.Prog)
	}
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		panic(unsupported{"regular expression"})
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(unsupported{"regular expression"})
	}
	progCache.Store(expr, p)
	return p
}

// narrow gives a concrete string that matches expr the way the symbolic one does.
func (e *Exec) narrow(expr string, v Val) string {
	el := strEl(v)
	if s, ok := concreteBytes(el); ok {
		return s
	}
	p := program(expr)
	anchored := p.StartCond()&syntax.EmptyBeginText != 0
	words := false
	for i := range p.Inst {
		if p.Inst[i].Op == syntax.InstEmptyWidth && syntax.EmptyOp(p.Inst[i].Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			words = true
		}
	}
	out := make([]byte, len(el))
	on := map[uint32]bool{}
	var add func(at map[uint32]bool, pc uint32, first, last bool)
	add = func(at map[uint32]bool, pc uint32, first, last bool) {
		if at[pc] {
			return
		}
		at[pc] = true
		switch in := &p.Inst[pc]; in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(at, in.Out, first, last)
			add(at, in.Arg, first, last)
		case syntax.InstCapture, syntax.InstNop:
			add(at, in.Out, first, last)
		case syntax.InstEmptyWidth:
			o := syntax.EmptyOp(in.Arg)
			if o&syntax.EmptyBeginText != 0 && !first || o&syntax.EmptyEndText != 0 && !last {
				return
			}
			add(at, in.Out, first, last)
		}
	}
	add(on, uint32(p.Start), true, len(el) == 0)
	for i, b := range el {
		if !anchored {
			add(on, uint32(p.Start), i == 0, false)
		}
		if b.r == nil {
			if b.c >= 0x80 {
				panic(unsupported{"regular expression on a symbolic string with bytes over 0x7f"})
			}
			out[i] = byte(b.c)
		} else {
			out[i] = e.pickByte(e.byteTerm(b), func(c byte) string {
				var sig []byte
				for pc := range p.Inst {
					if in := &p.Inst[pc]; on[uint32(pc)] && in.Op >= syntax.InstRune && in.Op <= syntax.InstRuneAnyNotNL {
						sig = append(sig, '0')
						if in.MatchRune(rune(c)) {
							sig[len(sig)-1] = '1'
						}
					}
				}
				if words {
					sig = append(sig, '0')
					if syntax.IsWordChar(rune(c)) {
						sig[len(sig)-1] = '1'
					} else if c == '\n' {
						sig[len(sig)-1] = '2'
					}
				}
				return string(sig)
			})
		}
		next := map[uint32]bool{}
		for pc := range on {
			if in := &p.Inst[pc]; in.Op >= syntax.InstRune && in.Op <= syntax.InstRuneAnyNotNL && in.MatchRune(rune(out[i])) {
				add(next, in.Out, false, i+1 == len(el))
			}
		}
		on = next
	}
	return string(out)
}

// pickByte branches on which class a byte is in and gives one of the class.
func (e *Exec) pickByte(t *Term, class func(byte) string) byte {
	of := map[string][]byte{}
	var order []string
	for c := 0; c < 0x80; c++ {
		k := class(byte(c))
		if of[k] == nil {
			order = append(order, k)
		}
		of[k] = append(of[k], byte(c))
	}
	sort.SliceStable(order, func(i, j int) bool { return len(of[order[i]]) < len(of[order[j]]) })
	for _, k := range order {
		var or []*Term
		for i := 0; i < len(of[k]); {
			j := i
			for j+1 < len(of[k]) && of[k][j+1] == of[k][j]+1 {
				j++
			}
			lo, hi := e.ctx.BV(8, uint64(of[k][i])), e.ctx.BV(8, uint64(of[k][j]))
			if i == j {
				or = append(or, e.ctx.Eq(t, lo))
			} else {
				or = append(or, e.ctx.And(e.ctx.Cmp(OpUle, lo, t), e.ctx.Cmp(OpUle, t, hi)))
			}
			i = j + 1
		}
		if x := e.ctx.Or(or...); x.isTrue() || !x.isFalse() && e.branch(x) {
			return of[k][0]
		}
	}
	panic(unsupported{"regular expression on a symbolic string with bytes over 0x7f"})
}

// regexStruct is regexp.Regexp, given a function that has it in its results.
func regexStruct(f *ssa.Function) types.Type {
	return f.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
}

func (e *Exec) newRegex(f *ssa.Function, expr string) Val {
	p := new(Val)
	*p = zero(regexStruct(f))
	p.r.(*StructV).f[0] = strVal(expr)
	return Val{r: p}
}

func ints(xs []int) Val {
	if xs == nil {
		return Val{}
	}
	a := make([]Val, len(xs))
	for i, x := range xs {
		a[i] = intVal(int64(x))
	}
	return mkSlice(a)
}

func strsOrNil(xs []string) Val {
	if xs == nil {
		return Val{}
	}
	return strSlice(xs)
}

func regexes() {
	intrinsics["regexp.Compile"] = func(e *Exec, f *ssa.Function, a []Val) (Val, bool) {
		s := e.goString(a[0])
		if _, err := compiled(s); err != nil {
			return tuple(Val{}, e.mkErr(err.Error())), false
		}
		return tuple(e.newRegex(f, s), Val{}), false
	}
	intrinsics["regexp.MustCompile"] = func(e *Exec, f *ssa.Function, a []Val) (Val, bool) {
		s := e.goString(a[0])
		if _, err := compiled(s); err != nil {
			e.goPanic("regexp: Compile(" + s + "): " + err.Error())
		}
		return e.newRegex(f, s), false
	}
	ss := func(e *Exec, r *regexp.Regexp, a Val) string { return e.narrow(r.String(), a) }
	m := func(n string, f func(e *Exec, r *regexp.Regexp, a []Val) Val) {
		intrinsics["(*regexp.Regexp)."+n] = plain(func(e *Exec, a []Val) Val {
			r, err := compiled(e.goString(*e.structCell(a[0], 0)))
			if err != nil {
				panic(unsupported{"regular expression"})
			}
			return f(e, r, a[1:])
		})
	}
	m("String", func(e *Exec, r *regexp.Regexp, a []Val) Val { return strVal(r.String()) })
	m("NumSubexp", func(e *Exec, r *regexp.Regexp, a []Val) Val { return intVal(int64(r.NumSubexp())) })
	m("SubexpNames", func(e *Exec, r *regexp.Regexp, a []Val) Val { return strSlice(r.SubexpNames()) })
	m("MatchString", func(e *Exec, r *regexp.Regexp, a []Val) Val { return boolVal(r.MatchString(ss(e, r, a[0]))) })
	m("Match", func(e *Exec, r *regexp.Regexp, a []Val) Val {
		return boolVal(r.MatchString(ss(e, r, mkStr(bytesOf(a[0])))))
	})
	m("FindStringSubmatchIndex", func(e *Exec, r *regexp.Regexp, a []Val) Val { return ints(r.FindStringSubmatchIndex(ss(e, r, a[0]))) })
	m("FindStringIndex", func(e *Exec, r *regexp.Regexp, a []Val) Val { return ints(r.FindStringIndex(ss(e, r, a[0]))) })
	m("FindStringSubmatch", func(e *Exec, r *regexp.Regexp, a []Val) Val { return strsOrNil(r.FindStringSubmatch(e.goString(a[0]))) })
	m("FindString", func(e *Exec, r *regexp.Regexp, a []Val) Val { return strVal(r.FindString(e.goString(a[0]))) })
	m("FindAllString", func(e *Exec, r *regexp.Regexp, a []Val) Val {
		return strsOrNil(r.FindAllString(e.goString(a[0]), int(int64(a[1].c))))
	})
	m("ReplaceAllString", func(e *Exec, r *regexp.Regexp, a []Val) Val {
		return strVal(r.ReplaceAllString(e.goString(a[0]), e.goString(a[1])))
	})
	intrinsics["regexp.QuoteMeta"] = strFn(1, func(e *Exec, s []string, _ []Val) Val { return strVal(regexp.QuoteMeta(s[0])) })
	intrinsics["regexp.MatchString"] = strFn(1, func(e *Exec, s []string, a []Val) Val {
		r, err := compiled(s[0])
		if err != nil {
			return tuple(Val{}, e.mkErr(err.Error()))
		}
		return tuple(boolVal(r.MatchString(ss(e, r, a[0]))), Val{})
	})
}
