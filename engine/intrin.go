package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func tuple(vs ...Val) Val { return Val{r: &StructV{f: vs}} }

type hfn func(e *Exec, args []Val) Val

func plain(f hfn) handler {
	return func(e *Exec, _ *ssa.Function, args []Val) (Val, bool) { return f(e, args), false }
}

var intrinsics map[string]handler

// fnName is the name used in the intrinsic table.
func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (w *Worker) intrinsic(f *ssa.Function) handler {
	if h, ok := w.handlers[f]; ok {
		return h
	}
	n := fnName(f)
	h := intrinsics[n]
	if h == nil {
		if f.Name() == "init" && f.Synthetic == "package initializer" && f.Signature.Recv() == nil {
			h = func(e *Exec, f *ssa.Function, args []Val) (Val, bool) { return Val{}, false }
		}
		for _, p := range noopPrefixes {
			if strings.HasPrefix(n, p) {
				h = func(e *Exec, f *ssa.Function, args []Val) (Val, bool) {
					return zeroResult(f), false
				}
			}
		}
	}
	w.handlers[f] = h
	return h
}

func zeroResult(f *ssa.Function) Val {
	r := f.Signature.Results()
	switch r.Len() {
	case 0:
		return Val{}
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

var noopPrefixes = []string{
	"log.Print", "(*log.Logger).Print", "log.SetFlags", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched",
	"internal/race.", "runtime.GC", "google.golang.org/protobuf/internal/", "(google.golang.org/protobuf/internal/", "flag.",
	"(*google.golang.org/protobuf/internal/", "internal/godebug.", "(*internal/godebug.",
}

// redirect maps a library function to a Go model in the harness module.
func (w *Worker) redirect(f *ssa.Function) *ssa.Function {
	if r, ok := w.redirs[f]; ok {
		return r
	}
	r := w.prog.redirect(fnName(f))
	if r == f {
		r = nil
	}
	w.redirs[f] = r
	return r
}

func (e *Exec) goString(v Val) string {
	switch s := v.r.(type) {
	case nil:
		return ""
	case string:
		return s
	}
	panic(unsupported{"symbolic string where a concrete one is needed"})
}

func (e *Exec) inputName(v Val) string {
	n := e.goString(v)
	k := e.names[n]
	e.names[n]++
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (e *Exec) symScalar(name string, w uint8) Val {
	s := bv(int(w))
	kind := "int"
	if w == 0 {
		s, kind = sortBool, "bool"
	}
	t := e.ctx.Var("in:"+name, s)
	e.inputs = append(e.inputs, &Input{Name: name, Kind: kind, t: t})
	return Val{r: t}
}

func (e *Exec) mkErr(msg string) Val {
	p := new(Val)
	*p = Val{r: &StructV{f: []Val{strVal(msg)}}}
	return Val{r: &IfaceV{t: types.NewPointer(e.prog.errorString), v: Val{r: p}}}
}

func (e *Exec) boolTerm(v Val) *Term {
	if t := v.sym(); t != nil {
		return t
	}
	return e.ctx.Bool(v.c != 0)
}

func sel(v Val, i int) Val { return v.r.(*StructV).f[i] }

// fieldCell gives the cell of a named field of a struct pointer.
func (e *Exec) structCell(p Val, i int) *Val { return &e.ptr(p).r.(*StructV).f[i] }

func (e *Exec) timeNow() Val {
	e.timeN++
	return Val{r: &StructV{f: []Val{{}, {c: uint64(63900000000 + e.timeN)}, {}}}}
}

// newTimer is a channel that delivers when the duration has passed: time passes
// only while no goroutine can run, or by a choice when interleavings are explored.
func (e *Exec) newTimer(d Val) *ChanV {
	n := e.concInt(d, types.Typ[types.Int64], "duration")
	if n < 0 {
		n = 0
	}
	e.chans++
	c := &ChanV{id: e.chans, cap: 1, timer: true, deadline: e.clock + n, et: e.prog.timeType}
	e.timers = append(e.timers, c)
	return c
}

func concStrs(args ...Val) ([]string, bool) {
	var out []string
	for _, a := range args {
		switch s := a.r.(type) {
		case nil:
			out = append(out, "")
		case string:
			out = append(out, s)
		default:
			return nil, false
		}
	}
	return out, true
}

// strFn wraps a native function on concrete strings.
// itself is what an intrinsic gives to have the function's own code run instead.
type itself struct{}

func strFn(n int, f func(e *Exec, s []string, rest []Val) Val) handler {
	return func(e *Exec, fn *ssa.Function, args []Val) (Val, bool) {
		s, ok := concStrs(args[:n]...)
		if !ok {
			return Val{r: itself{}}, false
		}
		return f(e, s, args[n:]), false
	}
}

func strSlice(ss []string) Val {
	a := make([]Val, len(ss))
	for i, s := range ss {
		a[i] = strVal(s)
	}
	return mkSlice(a)
}

func isSymrt(n string) string { return "gosymharness/symrt." + n }

func init() {
	intrinsics = map[string]handler{}
	reg := func(n string, f hfn) { intrinsics[n] = plain(f) }
	rt := func(n string, f hfn) { intrinsics[isSymrt(n)] = plain(f) }

	// ---- symrt
	rt("Symbolic", func(e *Exec, a []Val) Val { return boolVal(true) })
	rt("Int64", func(e *Exec, a []Val) Val { return e.symScalar(e.inputName(a[0]), 64) })
	rt("Uint64", func(e *Exec, a []Val) Val { return e.symScalar(e.inputName(a[0]), 64) })
	rt("Uint", func(e *Exec, a []Val) Val { return e.symScalar(e.inputName(a[0]), 64) })
	rt("Int", func(e *Exec, a []Val) Val { return e.symScalar(e.inputName(a[0]), 64) })
	rt("Int32", func(e *Exec, a []Val) Val { return e.symScalar(e.inputName(a[0]), 32) })
	rt("Bool", func(e *Exec, a []Val) Val { return e.symScalar(e.inputName(a[0]), 0) })
	rt("Bytes", func(e *Exec, a []Val) Val {
		n := e.inputName(a[0])
		k := int(a[1].c)
		in := &Input{Name: n, Kind: "bytes"}
		el := make([]Val, k)
		for i := range el {
			t := e.ctx.Var(fmt.Sprintf("in:%s[%d]", n, i), bv(8))
			in.ts = append(in.ts, t)
			el[i] = Val{r: t}
		}
		e.inputs = append(e.inputs, in)
		return mkSlice(el)
	})
	rt("Hash", func(e *Exec, a []Val) Val {
		n := e.inputName(a[0])
		t := e.ctx.Var("in:"+n, sortH)
		e.inputs = append(e.inputs, &Input{Name: n, Kind: "hash", t: t})
		return mkSlice(append([]Val(nil), e.hBytes(t)...))
	})
	rt("Choose", func(e *Exec, a []Val) Val {
		n := e.inputName(a[0])
		v := uint64(e.choose(int(a[1].c)))
		e.inputs = append(e.inputs, &Input{Name: n, Kind: "int", conc: &v})
		return Val{c: v}
	})
	rt("Concretize", func(e *Exec, a []Val) Val {
		if t := a[0].sym(); t != nil {
			return Val{c: e.concretize(t, 4096)}
		}
		return a[0]
	})
	rt("Assume", func(e *Exec, a []Val) Val { e.assume(e.boolTerm(a[0])); return Val{} })
	rt("Assert", func(e *Exec, a []Val) Val { e.assert(e.boolTerm(a[0]), e.goString(a[1])); return Val{} })
	rt("Fail", func(e *Exec, a []Val) Val { e.fail("assert", e.goString(a[0])); return Val{} })
	rt("Reach", func(e *Exec, a []Val) Val { e.reached[e.goString(a[0])] = true; return Val{} })
	rt("Skip", func(e *Exec, a []Val) Val { panic(unsupported{e.goString(a[0])}) })
	rt("Settle", func(e *Exec, a []Val) Val { e.settle(); return Val{} })
	rt("End", func(e *Exec, a []Val) Val { panic(pathEnd{"exit"}) })
	rt("And", func(e *Exec, a []Val) Val {
		var ts []*Term
		for _, x := range bytesOf(a[0]) {
			ts = append(ts, e.boolTerm(x))
		}
		return termVal(e.ctx.And(ts...))
	})
	rt("Or", func(e *Exec, a []Val) Val {
		var ts []*Term
		for _, x := range bytesOf(a[0]) {
			ts = append(ts, e.boolTerm(x))
		}
		return termVal(e.ctx.Or(ts...))
	})
	rt("Implies", func(e *Exec, a []Val) Val {
		return termVal(e.ctx.Or(e.ctx.Not(e.boolTerm(a[0])), e.boolTerm(a[1])))
	})
	rt("Not", func(e *Exec, a []Val) Val { return termVal(e.ctx.Not(e.boolTerm(a[0]))) })
	rt("IteInt64", func(e *Exec, a []Val) Val {
		c := e.boolTerm(a[0])
		x, y := a[1], a[2]
		i64 := types.Typ[types.Int64]
		return termVal(e.ctx.Ite(c, e.term(x, i64), e.term(y, i64)))
	})
	rt("Param", func(e *Exec, a []Val) Val {
		n := e.goString(a[0])
		if v, ok := e.w.cfg.Params[n]; ok {
			return intVal(v)
		}
		return a[1]
	})
	rt("Explore", func(e *Exec, a []Val) Val {
		e.hits = map[*cinstr]int{}
		e.exploreOn = true
		e.explore = int(a[0].c)
		return Val{}
	})
	rt("MayExit", func(e *Exec, a []Val) Val { e.mayExit = true; return Val{} })
	rt("NoExplore", func(e *Exec, a []Val) Val { e.exploreOn = false; e.explore = 0; return Val{} })
	rt("Yield", func(e *Exec, a []Val) Val { e.yieldPoint(); return Val{} })
	rt("NoteInt", func(e *Exec, a []Val) Val { return Val{} })
	rt("ProgramSHA", func(e *Exec, a []Val) Val {
		k, ok := concreteBytes(bytesOf(a[0]))
		if !ok {
			panic(unsupported{"ProgramSHA of symbolic bytes"})
		}
		e.progKeys[k] = append([]Val(nil), bytesOf(a[1])...)
		return Val{}
	})
	rt("WindowKey", func(e *Exec, a []Val) Val {
		n := e.inputName(a[0])
		prefix, pb, wb := a[1].c, int(a[2].c), int(a[3].c)
		key := "winkey:" + n
		d := e.ctx.concreteSha(key)
		v := e.ctx.Var("in:"+n, bv(16))
		e.inputs = append(e.inputs, &Input{Name: n, Kind: "int", t: v})
		e.assume(e.ctx.Cmp(OpUlt, v, e.ctx.BV(16, 1<<uint(wb))))
		out := make([]Val, 32)
		for i := range out {
			var cb uint64
			var sb *Term
			for j := 0; j < 8; j++ {
				pos := i*8 + j
				sh := uint(7 - j)
				switch {
				case pos < pb:
					cb |= (prefix >> uint(pb-1-pos) & 1) << sh
				case pos < pb+wb:
					k := uint8(wb - 1 - (pos - pb))
					t := e.ctx.Bin(OpShl, e.ctx.Zext(e.ctx.Extract(v, k, k), 8), e.ctx.BV(8, uint64(sh)))
					if sb == nil {
						sb = t
					} else {
						sb = e.ctx.Bin(OpBor, sb, t)
					}
				default:
					cb |= uint64(d[i]) & (1 << sh)
				}
			}
			if sb == nil {
				out[i] = Val{c: cb}
			} else {
				out[i] = termVal(e.ctx.Bin(OpBor, sb, e.ctx.BV(8, cb)))
			}
		}
		e.progKeys[key] = out
		return mkBytes([]byte(key))
	})
	intrinsics["crypto/sha256.Sum256"] = plain(func(e *Exec, a []Val) Val {
		return Val{r: &ArrV{a: append([]Val(nil), e.shaBytes(bytesOf(a[0]))...)}}
	})

	// ---- bytes / hex
	reg("bytes.Equal", func(e *Exec, a []Val) Val { return termVal(e.eqBytes(bytesOf(a[0]), bytesOf(a[1]))) })
	reg("bytes.Compare", func(e *Exec, a []Val) Val { return intVal(int64(e.cmpBytes(bytesOf(a[0]), bytesOf(a[1])))) })
	reg("internal/bytealg.Compare", func(e *Exec, a []Val) Val { return intVal(int64(e.cmpBytes(bytesOf(a[0]), bytesOf(a[1])))) })
	reg("internal/bytealg.CompareString", func(e *Exec, a []Val) Val { return intVal(int64(e.cmpBytes(strEl(a[0]), strEl(a[1])))) })
	reg("strings.Compare", func(e *Exec, a []Val) Val { return intVal(int64(e.cmpBytes(strEl(a[0]), strEl(a[1])))) })
	reg("internal/bytealg.MakeNoZero", func(e *Exec, a []Val) Val { return mkSlice(make([]Val, int(a[0].c))) })
	reg("internal/bytealg.IndexByte", func(e *Exec, a []Val) Val { return e.indexByte(bytesOf(a[0]), a[1]) })
	reg("internal/bytealg.IndexByteString", func(e *Exec, a []Val) Val { return e.indexByte(strEl(a[0]), a[1]) })
	reg("internal/bytealg.Count", func(e *Exec, a []Val) Val { return e.countByte(bytesOf(a[0]), a[1]) })
	reg("internal/bytealg.CountString", func(e *Exec, a []Val) Val { return e.countByte(strEl(a[0]), a[1]) })
	reg("internal/stringslite.Index", func(e *Exec, a []Val) Val { return e.indexSub(strEl(a[0]), strEl(a[1])) })
	reg("strings.Index", func(e *Exec, a []Val) Val { return e.indexSub(strEl(a[0]), strEl(a[1])) })
	reg("bytes.Index", func(e *Exec, a []Val) Val { return e.indexSub(bytesOf(a[0]), bytesOf(a[1])) })
	reg("encoding/hex.EncodeToString", func(e *Exec, a []Val) Val {
		var out []Val
		for _, b := range bytesOf(a[0]) {
			t := e.byteTerm(b)
			out = append(out, termVal(e.ctx.HexDig(t, true)), termVal(e.ctx.HexDig(t, false)))
		}
		return mkStr(out)
	})
	reg("encoding/hex.DecodeString", func(e *Exec, a []Val) Val {
		el := strEl(a[0])
		if hexDecodable(el) || allHexC(el) {
			d := hexDecode(el)
			if d == nil {
				d = []Val{}
			}
			return tuple(mkSlice(d), Val{})
		}
		s, ok := concreteBytes(el)
		if !ok {
			return e.hexDecodeSym(el)
		}
		b, err := hex.DecodeString(s)
		if err != nil {
			return tuple(mkBytes(b), e.mkErr(err.Error()))
		}
		return tuple(mkBytes(b), Val{})
	})

	// ---- strings, natively on concrete values
	reg("strings.Split", func(e *Exec, a []Val) Val {
		if ss, ok := concStrs(a[0], a[1]); ok {
			return strSlice(strings.Split(ss[0], ss[1]))
		}
		el, sep := strEl(a[0]), strEl(a[1])
		if len(sep) == 0 {
			panic(unsupported{"strings.Split of a symbolic string at every rune"})
		}
		var out []Val
		for {
			i := int(int64(e.indexSub(el, sep).c))
			if i < 0 {
				return mkSlice(append(out, mkStr(el)))
			}
			out = append(out, mkStr(el[:i]))
			el = el[i+len(sep):]
		}
	})
	intrinsics["strings.ToLower"] = strFn(1, func(e *Exec, s []string, _ []Val) Val { return strVal(strings.ToLower(s[0])) })
	intrinsics["strings.ToUpper"] = strFn(1, func(e *Exec, s []string, _ []Val) Val { return strVal(strings.ToUpper(s[0])) })
	reg("strings.TrimSpace", func(e *Exec, a []Val) Val {
		el := strEl(a[0])
		if s, ok := concreteBytes(el); ok {
			return strVal(strings.TrimSpace(s))
		}
		for len(el) > 0 && e.isSpace(el[0]) {
			el = el[1:]
		}
		for len(el) > 0 && e.isSpace(el[len(el)-1]) {
			el = el[:len(el)-1]
		}
		return mkStr(el)
	})
	intrinsics["strings.Replace"] = strFn(3, func(e *Exec, s []string, r []Val) Val {
		return strVal(strings.Replace(s[0], s[1], s[2], int(int64(r[0].c))))
	})
	intrinsics["strings.ReplaceAll"] = strFn(3, func(e *Exec, s []string, _ []Val) Val { return strVal(strings.ReplaceAll(s[0], s[1], s[2])) })
	intrinsics["strings.Fields"] = strFn(1, func(e *Exec, s []string, _ []Val) Val { return strSlice(strings.Fields(s[0])) })
	intrinsics["strings.EqualFold"] = strFn(2, func(e *Exec, s []string, _ []Val) Val { return boolVal(strings.EqualFold(s[0], s[1])) })
	reg("strings.Join", func(e *Exec, a []Val) Val {
		var out []Val
		sep := strEl(a[1])
		for i, s := range bytesOf(a[0]) {
			if i > 0 {
				out = append(out, sep...)
			}
			out = append(out, strEl(s)...)
		}
		return mkStr(out)
	})
	reg("strings.Clone", func(e *Exec, a []Val) Val { return a[0] })
	reg("internal/stringslite.Clone", func(e *Exec, a []Val) Val { return a[0] })
	reg("(*strings.Builder).copyCheck", func(e *Exec, a []Val) Val { return Val{} })
	reg("(*strings.Builder).String", func(e *Exec, a []Val) Val { return mkStr(bytesOf(*e.structCell(a[0], 1))) })
	reg("(*strings.Builder).Len", func(e *Exec, a []Val) Val { return intVal(int64(len(bytesOf(*e.structCell(a[0], 1))))) })
	reg("(*strings.Builder).Grow", func(e *Exec, a []Val) Val { return Val{} })

	// ---- strconv
	reg("strconv.Itoa", func(e *Exec, a []Val) Val { return e.fmtInt(a[0], 10, true) })
	reg("strconv.FormatInt", func(e *Exec, a []Val) Val { return e.fmtInt(a[0], int(a[1].c), true) })
	reg("strconv.FormatUint", func(e *Exec, a []Val) Val { return e.fmtInt(a[0], int(a[1].c), false) })
	intrinsics["strconv.Atoi"] = strFn(1, func(e *Exec, s []string, _ []Val) Val {
		v, err := strconv.Atoi(s[0])
		return tuple(intVal(int64(v)), e.errOrNil(err))
	})
	intrinsics["strconv.ParseInt"] = strFn(1, func(e *Exec, s []string, r []Val) Val {
		v, err := strconv.ParseInt(s[0], int(r[0].c), int(r[1].c))
		return tuple(intVal(v), e.errOrNil(err))
	})
	intrinsics["strconv.ParseUint"] = strFn(1, func(e *Exec, s []string, r []Val) Val {
		v, err := strconv.ParseUint(s[0], int(r[0].c), int(r[1].c))
		return tuple(Val{c: v}, e.errOrNil(err))
	})
	intrinsics["strconv.Quote"] = strFn(1, func(e *Exec, s []string, _ []Val) Val { return strVal(strconv.Quote(s[0])) })

	// ---- fmt
	reg("fmt.Sprintf", func(e *Exec, a []Val) Val { return e.sprintf(e.goString(a[0]), bytesOf(a[1]), false) })
	reg("fmt.Sprint", func(e *Exec, a []Val) Val { return e.sprint(bytesOf(a[0]), false) })
	reg("fmt.Sprintln", func(e *Exec, a []Val) Val { return e.sprint(bytesOf(a[0]), true) })
	reg("fmt.Errorf", func(e *Exec, a []Val) Val { return e.errorf(e.goString(a[0]), bytesOf(a[1])) })
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln"} {
		nn := n
		reg(n, func(e *Exec, a []Val) Val {
			if strings.HasPrefix(nn, "fmt.F") {
				return e.fprint(nn, a)
			}
			return tuple(Val{}, Val{})
		})
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit"} {
		nn := n
		reg(n, func(e *Exec, a []Val) Val {
			if e.mayExit {
				panic(pathEnd{"exit"})
			}
			e.fail("fatal", nn+" ends the process")
			return Val{}
		})
	}

	// ---- errors
	reg("errors.Is", func(e *Exec, a []Val) Val { return boolVal(e.errorsIs(a[0], a[1])) })
	reg("errors.As", func(e *Exec, a []Val) Val { return boolVal(e.errorsAs(a[0], a[1])) })
	reg("reflect.DeepEqual", func(e *Exec, a []Val) Val {
		return termVal(e.deepEq(a[0], a[1], types.NewInterfaceType(nil, nil), 0))
	})

	// ---- sort
	srt := func(e *Exec, a []Val) Val {
		iv, ok := a[0].r.(*IfaceV)
		if !ok {
			return Val{}
		}
		s := bytesOf(iv.v)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := e.callSync(a[1], []Val{intVal(int64(j)), intVal(int64(j - 1))})
				b := r.c != 0
				if t := r.sym(); t != nil {
					b = e.branch(t)
				}
				if !b {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				e.store(&s[j], y)
				e.store(&s[j-1], x)
			}
		}
		return Val{}
	}
	reg("sort.Slice", srt)
	reg("sort.SliceStable", srt)
	sortStr := func(e *Exec, a []Val) Val {
		s := bytesOf(a[0])
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && e.cmpBytes(strEl(s[j]), strEl(s[j-1])) < 0; j-- {
				x, y := s[j], s[j-1]
				e.set(&s[j], y)
				e.set(&s[j-1], x)
			}
		}
		return Val{}
	}
	reg("sort.Strings", sortStr)

	// ---- time
	reg("time.Now", func(e *Exec, a []Val) Val { return e.timeNow() })
	reg("(time.Time).Format", func(e *Exec, a []Val) Val {
		e.timeN++
		return strVal(fmt.Sprintf("2026-01-01T00:00:%02dZ", e.timeN%60))
	})
	reg("(time.Time).String", func(e *Exec, a []Val) Val { return strVal("time") })
	reg("(time.Time).UTC", func(e *Exec, a []Val) Val { return a[0] })
	reg("(time.Time).Sub", func(e *Exec, a []Val) Val { return intVal(1000000) })
	reg("time.Since", func(e *Exec, a []Val) Val { return intVal(1000000) })
	reg("(time.Duration).String", func(e *Exec, a []Val) Val { return strVal("1ms") })
	reg("time.Sleep", func(e *Exec, a []Val) Val {
		if e.cur.sync {
			return Val{}
		}
		c := e.newTimer(a[0])
		c.recvq = append(c.recvq, &waiter{g: e.cur})
		e.block(nil, nil)
		return Val{}
	})
	reg("time.After", func(e *Exec, a []Val) Val { return Val{r: e.newTimer(a[0])} })

	// ---- sync
	intrinsics["(*sync.Mutex).Lock"] = lockH(false)
	intrinsics["(*sync.Mutex).Unlock"] = unlockH(false)
	intrinsics["(*sync.Mutex).TryLock"] = plain(func(e *Exec, a []Val) Val {
		m := e.mu(a[0])
		if m.w || m.r > 0 {
			return boolVal(false)
		}
		m.w = true
		e.locked(a[0], false)
		return boolVal(true)
	})
	intrinsics["(*sync.RWMutex).Lock"] = lockH(false)
	intrinsics["(*sync.RWMutex).Unlock"] = unlockH(false)
	intrinsics["(*sync.RWMutex).RLock"] = lockH(true)
	intrinsics["(*sync.RWMutex).RUnlock"] = unlockH(true)
	reg("(*sync.WaitGroup).Add", func(e *Exec, a []Val) Val { *e.wg(a[0]) += int64(a[1].c); return Val{} })
	reg("(*sync.WaitGroup).Done", func(e *Exec, a []Val) Val { *e.wg(a[0])--; e.release(e.cur, e.wg(a[0])); e.yieldPoint(); return Val{} })
	intrinsics["(*sync.WaitGroup).Wait"] = func(e *Exec, f *ssa.Function, a []Val) (Val, bool) {
		c := e.wg(a[0])
		if *c == 0 {
			e.acquire(e.cur, c)
			return Val{}, false
		}
		e.block(func() bool { return *c == 0 }, func() { e.acquire(e.cur, c) })
		return Val{}, true
	}
	atomics()
	reg("os.Getenv", func(e *Exec, a []Val) Val { return strVal("") })
	reg("runtime.NumCPU", func(e *Exec, a []Val) Val { return intVal(1) })
	reg("runtime.GOMAXPROCS", func(e *Exec, a []Val) Val { return intVal(1) })
	reg("runtime.Callers", func(e *Exec, a []Val) Val { return intVal(0) })
	reg("math.Float64bits", func(e *Exec, a []Val) Val { return a[0] })
	reg("math.Float64frombits", func(e *Exec, a []Val) Val { return a[0] })
	reg("math.IsInf", func(e *Exec, a []Val) Val { return boolVal(false) })
	randB := func(e *Exec, a []Val) Val {
		b := bytesOf(a[0])
		e.fresh++
		d := e.ctx.concreteSha(fmt.Sprintf("random %d", e.fresh))
		for i := range b {
			e.set(&b[i], Val{c: uint64(d[i%32])})
		}
		return tuple(intVal(int64(len(b))), Val{})
	}
	reg("crypto/rand.Read", randB)
	codecs()
	regexes()
}

func (e *Exec) errOrNil(err error) Val {
	if err == nil {
		return Val{}
	}
	return e.mkErr(err.Error())
}

func (e *Exec) indexByte(el []Val, c Val) Val {
	for i, x := range el {
		if x.r == nil && c.r == nil {
			if x.c == c.c {
				return intVal(int64(i))
			}
			continue
		}
		if e.branch(e.ctx.Eq(e.byteTerm(x), e.byteTerm(c))) {
			return intVal(int64(i))
		}
	}
	return intVal(-1)
}

// isSpace decides whether a byte of a string is an ASCII space.
func (e *Exec) isSpace(v Val) bool {
	if v.r == nil {
		if v.c >= 0x80 {
			panic(unsupported{"trimming a symbolic string with bytes over 0x7f"})
		}
		return strings.IndexByte("\t\n\v\f\r ", byte(v.c)) >= 0
	}
	t := e.byteTerm(v)
	var eqs []*Term
	for _, c := range []byte("\t\n\v\f\r ") {
		eqs = append(eqs, e.ctx.Eq(t, e.ctx.BV(8, uint64(c))))
	}
	any := e.ctx.Or(eqs...)
	if any.isTrue() || !any.isFalse() && e.branch(any) {
		return true
	}
	if t.op != OpHexDig && t.op != OpB64Dig && t.op != OpB64Six && e.branch(e.ctx.Cmp(OpUle, e.ctx.BV(8, 0x80), t)) {
		panic(unsupported{"trimming a symbolic string with bytes over 0x7f"})
	}
	return false
}

func (e *Exec) countByte(el []Val, c Val) Val {
	n := int64(0)
	for _, x := range el {
		if x.r == nil && c.r == nil {
			if x.c == c.c {
				n++
			}
			continue
		}
		if e.branch(e.ctx.Eq(e.byteTerm(x), e.byteTerm(c))) {
			n++
		}
	}
	return intVal(n)
}

func (e *Exec) indexSub(s, sub []Val) Val {
	for i := 0; i+len(sub) <= len(s); i++ {
		t := e.eqBytes(s[i:i+len(sub)], sub)
		if t.isTrue() || !t.isFalse() && e.branch(t) {
			return intVal(int64(i))
		}
	}
	return intVal(-1)
}

// hexDecodeSym decodes hex text with symbolic characters.
func (e *Exec) hexDecodeSym(el []Val) Val {
	bad := func() Val { return tuple(Val{r: &SliceV{a: []Val{}}}, e.mkErr("encoding/hex: invalid input")) }
	if len(el)%2 != 0 {
		return bad()
	}
	nib := func(v Val) (*Term, bool) {
		c := e.ctx
		t := e.byteTerm(v)
		in := func(lo, hi uint64) bool {
			return e.branch(c.And(c.Not(c.Cmp(OpUlt, t, c.BV(8, lo))), c.Not(c.Cmp(OpUlt, c.BV(8, hi), t))))
		}
		switch {
		case in('0', '9'):
			return c.Bin(OpSub, t, c.BV(8, '0')), true
		case in('a', 'f'):
			return c.Bin(OpSub, t, c.BV(8, 'a'-10)), true
		case in('A', 'F'):
			return c.Bin(OpSub, t, c.BV(8, 'A'-10)), true
		}
		return nil, false
	}
	var out []Val
	for i := 0; i < len(el); i += 2 {
		if hexDecodable(el[i : i+2]) {
			out = append(out, hexDecode(el[i:i+2])...)
			continue
		}
		a, ok := nib(el[i])
		if !ok {
			return bad()
		}
		b, ok := nib(el[i+1])
		if !ok {
			return bad()
		}
		out = append(out, termVal(e.ctx.Bin(OpBor, e.ctx.Bin(OpShl, a, e.ctx.BV(8, 4)), b)))
	}
	return tuple(mkSlice(out), Val{})
}

func (e *Exec) fmtInt(v Val, base int, signed bool) Val {
	if t := v.sym(); t != nil {
		if e.inInit {
			panic(unsupported{"format of a symbolic integer"})
		}
		s := e.ctx.Subst(t)
		if !s.isConst() {
			// a small number of values is expected
			v = Val{c: e.concretize(t, 64)}
		} else {
			v = Val{c: s.c}
		}
	}
	if signed {
		return strVal(strconv.FormatInt(int64(v.c), base))
	}
	return strVal(strconv.FormatUint(v.c, base))
}

// ---- sync helpers

func (e *Exec) mu(p Val) *muState {
	k := e.ptr(p)
	m := e.mutexes[k]
	if m == nil {
		m = &muState{}
		e.mutexes[k] = m
	}
	return m
}

func (e *Exec) wg(p Val) *int64 {
	k := e.ptr(p)
	m := e.wgs[k]
	if m == nil {
		m = new(int64)
		e.wgs[k] = m
	}
	return m
}

func lockH(read bool) handler {
	return func(e *Exec, f *ssa.Function, a []Val) (Val, bool) {
		m := e.mu(a[0])
		e.yieldPoint()
		if e.preempt {
			// acquire when scheduled again
			e.block(func() bool { return !m.w && (read || m.r == 0) }, func() { m.take(read); e.locked(a[0], read) })
			return Val{}, true
		}
		if !m.w && (read || m.r == 0) {
			m.take(read)
			e.locked(a[0], read)
			return Val{}, false
		}
		e.block(func() bool { return !m.w && (read || m.r == 0) }, func() { m.take(read); e.locked(a[0], read) })
		return Val{}, true
	}
}

func (m *muState) take(read bool) {
	if read {
		m.r++
	} else {
		m.w = true
	}
}

func unlockH(read bool) handler {
	return func(e *Exec, f *ssa.Function, a []Val) (Val, bool) {
		m := e.mu(a[0])
		if read {
			if m.r <= 0 {
				e.fail("fatal", "sync: RUnlock of unlocked RWMutex")
			}
			m.r--
			e.releaseRead(e.cur, e.ptr(a[0]))
		} else {
			if !m.w {
				e.fail("fatal", "sync: unlock of unlocked mutex")
			}
			m.w = false
			e.release(e.cur, e.ptr(a[0]))
		}
		e.yieldAfter()
		return Val{}, false
	}
}

func atomics() {
	ty := map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64], "Uintptr": types.Typ[types.Uintptr]}
	for n, t := range ty {
		t := t
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			intrinsics[pk+"Load"+n] = plain(func(e *Exec, a []Val) Val { e.yieldPoint(); e.atomic(a[0], false); return *e.ptr(a[0]) })
			intrinsics[pk+"Store"+n] = plain(func(e *Exec, a []Val) Val {
				e.yieldPoint()
				e.atomic(a[0], true)
				e.set(e.ptr(a[0]), a[1])
				return Val{}
			})
			intrinsics[pk+"Add"+n] = plain(func(e *Exec, a []Val) Val {
				e.yieldPoint()
				e.atomic(a[0], true)
				p := e.ptr(a[0])
				v := termVal(e.ctx.Bin(OpAdd, e.term(*p, t), e.term(a[1], t)))
				e.set(p, v)
				return v
			})
			intrinsics[pk+"Swap"+n] = plain(func(e *Exec, a []Val) Val {
				e.yieldPoint()
				e.atomic(a[0], true)
				p := e.ptr(a[0])
				v := *p
				e.set(p, a[1])
				return v
			})
			intrinsics[pk+"CompareAndSwap"+n] = plain(func(e *Exec, a []Val) Val {
				e.yieldPoint()
				e.atomic(a[0], true)
				p := e.ptr(a[0])
				c := e.ctx.Eq(e.term(*p, t), e.term(a[1], t))
				if c.isTrue() || !c.isFalse() && e.branch(c) {
					e.set(p, a[2])
					return boolVal(true)
				}
				return boolVal(false)
			})
		}
	}
	intrinsics["sync/atomic.LoadPointer"] = plain(func(e *Exec, a []Val) Val { e.atomic(a[0], false); return *e.ptr(a[0]) })
	intrinsics["sync/atomic.StorePointer"] = plain(func(e *Exec, a []Val) Val { e.atomic(a[0], true); e.set(e.ptr(a[0]), a[1]); return Val{} })
	intrinsics["sync/atomic.CompareAndSwapPointer"] = plain(func(e *Exec, a []Val) Val {
		e.atomic(a[0], true)
		p := e.ptr(a[0])
		if p.r == a[1].r {
			e.set(p, a[2])
			return boolVal(true)
		}
		return boolVal(false)
	})
	intrinsics["(*sync/atomic.Value).Load"] = plain(func(e *Exec, a []Val) Val { e.atomic(a[0], false); return *e.structCell(a[0], 0) })
	intrinsics["(*sync/atomic.Value).Store"] = plain(func(e *Exec, a []Val) Val { e.atomic(a[0], true); e.set(e.structCell(a[0], 0), a[1]); return Val{} })
}

// ---- errors

func (e *Exec) errorsIs(err, target Val) bool {
	for i := 0; i < 20; i++ {
		if err.r == nil || target.r == nil {
			return err.r == nil && target.r == nil
		}
		x, y := err.r.(*IfaceV), target.r.(*IfaceV)
		if types.Identical(x.t, y.t) && types.Comparable(x.t) {
			t := e.eqTerm(x.v, y.v, x.t)
			if t.isTrue() || !t.isFalse() && e.branch(t) {
				return true
			}
		}
		if f := e.methodOf(x.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			r := e.callSync(Val{r: f}, []Val{copyVal(x.v), target})
			if r.sym() == nil && r.c != 0 {
				return true
			}
		}
		f := e.methodOf(x.t, "Unwrap")
		if f == nil || f.Signature.Results().Len() != 1 {
			return false
		}
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
			for _, u := range bytesOf(e.callSync(Val{r: f}, []Val{copyVal(x.v)})) {
				if e.errorsIs(u, target) {
					return true
				}
			}
			return false
		}
		err = e.callSync(Val{r: f}, []Val{copyVal(x.v)})
		if err.r == nil {
			return false
		}
	}
	return false
}

func (e *Exec) methodOf(t types.Type, name string) *ssa.Function {
	if t == e.w.rtErr {
		return nil
	}
	ms := e.prog.ssa.MethodSets.MethodSet(t)
	if ms.Lookup(nil, name) == nil {
		return nil
	}
	return e.prog.method(t, nil, name)
}

func (e *Exec) errorsAs(err, target Val) bool {
	tv, ok := target.r.(*IfaceV)
	if !ok {
		e.goPanic("errors: target cannot be nil")
	}
	pt, ok := tv.t.Underlying().(*types.Pointer)
	if !ok {
		e.goPanic("errors: target must be a non-nil pointer")
	}
	for i := 0; i < 20 && err.r != nil; i++ {
		x := err.r.(*IfaceV)
		if _, isI := pt.Elem().Underlying().(*types.Interface); isI {
			if e.prog.implements(x.t, pt.Elem()) {
				e.store(e.ptr(tv.v), err)
				return true
			}
		} else if types.Identical(x.t, pt.Elem()) {
			e.store(e.ptr(tv.v), x.v)
			return true
		}
		f := e.methodOf(x.t, "Unwrap")
		if f == nil {
			return false
		}
		err = e.callSync(Val{r: f}, []Val{copyVal(x.v)})
	}
	return false
}

// ---- formatting

func (e *Exec) fmtArg(v Val, verb byte) ([]Val, bool) {
	lit := func(s string) ([]Val, bool) { return strEl(strVal(s)), true }
	iv, ok := v.r.(*IfaceV)
	if !ok {
		return lit("<nil>")
	}
	if iv.t == e.w.rtErr {
		return strEl(iv.v), true
	}
	if verb == 's' || verb == 'v' || verb == 'w' {
		if f := e.methodOf(iv.t, "Error"); f != nil {
			return strEl(e.callSync(Val{r: f}, []Val{copyVal(iv.v)})), true
		}
	}
	switch u := iv.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch verb {
			case 's', 'v':
				return strEl(iv.v), true
			case 'q':
				if s, ok := iv.v.r.(string); ok {
					return lit(strconv.Quote(s))
				}
			case 'x':
				var out []Val
				for _, b := range strEl(iv.v) {
					out = append(out, termVal(e.ctx.HexDig(e.byteTerm(b), true)), termVal(e.ctx.HexDig(e.byteTerm(b), false)))
				}
				return out, true
			}
		case u.Info()&types.IsInteger != 0:
			if iv.v.sym() != nil {
				return nil, false
			}
			base := 10
			if verb == 'x' {
				base = 16
			}
			if isSigned(iv.t) {
				return lit(strconv.FormatInt(sext(iv.v.c, widthOf(iv.t)), base))
			}
			return lit(strconv.FormatUint(iv.v.c, base))
		case u.Info()&types.IsBoolean != 0:
			if iv.v.sym() != nil {
				return nil, false
			}
			return lit(strconv.FormatBool(iv.v.c != 0))
		}
	case *types.Slice:
		if widthOf(u.Elem()) == 8 {
			switch verb {
			case 's':
				return bytesOf(iv.v), true
			case 'x':
				var out []Val
				for _, b := range bytesOf(iv.v) {
					out = append(out, termVal(e.ctx.HexDig(e.byteTerm(b), true)), termVal(e.ctx.HexDig(e.byteTerm(b), false)))
				}
				return out, true
			}
		}
	}
	return nil, false
}

// sprintf formats; lax gives a placeholder for what cannot be formatted.
func (e *Exec) sprintf(f string, args []Val, lax bool) Val {
	var out []Val
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, Val{c: uint64(f[i])})
			continue
		}
		i++
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			out = append(out, Val{c: '%'})
			continue
		}
		if ai >= len(args) {
			out = append(out, strEl(strVal("%!missing"))...)
			continue
		}
		a := args[ai]
		ai++
		flags := f[st:i]
		if flags != "" && flags != "+" && flags != "#" {
			// width etc: concrete integers only
			iv, ok := a.r.(*IfaceV)
			if ok && iv.v.r == nil && (f[i] == 'd' || f[i] == 'x') {
				out = append(out, strEl(strVal(fmt.Sprintf("%"+flags+string(f[i]), int64(iv.v.c))))...)
				continue
			}
			if !lax {
				panic(unsupported{"format %" + flags + string(f[i])})
			}
		}
		r, ok := e.fmtArg(a, f[i])
		if !ok {
			if iv, is := a.r.(*IfaceV); is && !lax && iv.v.sym() != nil && (f[i] == 'd' || f[i] == 'v') {
				if iv.v.sym().s.k == SBV {
					r = strEl(e.fmtInt(iv.v, 10, isSigned(iv.t)))
					ok = true
				}
			}
		}
		if !ok {
			if !lax {
				panic(unsupported{"format %" + string(f[i]) + " of " + e.dynType(a)})
			}
			r = strEl(strVal("?"))
		}
		out = append(out, r...)
	}
	return mkStr(out)
}

func (e *Exec) dynType(v Val) string {
	if iv, ok := v.r.(*IfaceV); ok {
		return iv.t.String()
	}
	return "nil"
}

func (e *Exec) sprint(args []Val, ln bool) Val {
	var out []Val
	for i, a := range args {
		if i > 0 && ln {
			out = append(out, Val{c: ' '})
		}
		r, ok := e.fmtArg(a, 'v')
		if !ok {
			panic(unsupported{"Sprint of " + e.dynType(a)})
		}
		out = append(out, r...)
	}
	if ln {
		out = append(out, Val{c: '\n'})
	}
	return mkStr(out)
}

func (e *Exec) fprint(name string, a []Val) Val {
	iv, ok := a[0].r.(*IfaceV)
	if !ok {
		return tuple(Val{}, Val{})
	}
	if strings.HasSuffix(iv.t.String(), "os.File") {
		return tuple(Val{}, Val{})
	}
	var s Val
	switch name {
	case "fmt.Fprintf":
		s = e.sprintf(e.goString(a[1]), bytesOf(a[2]), true)
	case "fmt.Fprint":
		s = e.sprint(bytesOf(a[1]), false)
	default:
		s = e.sprint(bytesOf(a[1]), true)
	}
	f := e.prog.method(iv.t, nil, "Write")
	if f == nil {
		panic(unsupported{"Fprint to " + iv.t.String()})
	}
	return e.callSync(Val{r: f}, []Val{copyVal(iv.v), mkSlice(append([]Val{}, strEl(s)...))})
}

func (e *Exec) errorf(f string, args []Val) Val {
	msg := e.sprintf(f, args, true)
	// %w
	n := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		if f[i+1] == '%' {
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j < len(f) && f[j] == 'w' && n < len(args) {
			if e.prog.wrapError != nil {
				p := new(Val)
				*p = Val{r: &StructV{f: []Val{msg, args[n]}}}
				return Val{r: &IfaceV{t: types.NewPointer(e.prog.wrapError), v: Val{r: p}}}
			}
		}
		n++
		i = j
	}
	p := new(Val)
	*p = Val{r: &StructV{f: []Val{msg}}}
	return Val{r: &IfaceV{t: types.NewPointer(e.prog.errorString), v: Val{r: p}}}
}

// deepEq is structural equality.
func (e *Exec) deepEq(a, b Val, t types.Type, depth int) *Term {
	if depth > 40 {
		panic(unsupported{"DeepEqual depth"})
	}
	c := e.ctx
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if a.r == nil || b.r == nil {
			return c.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*IfaceV), b.r.(*IfaceV)
		if !types.Identical(x.t, y.t) {
			return c.tFalse
		}
		return e.deepEq(x.v, y.v, x.t, depth+1)
	case *types.Slice:
		if (a.r == nil) != (b.r == nil) {
			return c.tFalse
		}
		x, y := bytesOf(a), bytesOf(b)
		if len(x) != len(y) {
			return c.tFalse
		}
		if bt, ok := u.Elem().Underlying().(*types.Basic); ok && widthOf(bt) == 8 {
			return e.eqBytes(x, y)
		}
		var cs []*Term
		for i := range x {
			cs = append(cs, e.deepEq(x[i], y[i], u.Elem(), depth+1))
		}
		return c.And(cs...)
	case *types.Array:
		var cs []*Term
		for i := range a.r.(*ArrV).a {
			cs = append(cs, e.deepEq(a.r.(*ArrV).a[i], b.r.(*ArrV).a[i], u.Elem(), depth+1))
		}
		return c.And(cs...)
	case *types.Struct:
		var cs []*Term
		for i, f := range a.r.(*StructV).f {
			cs = append(cs, e.deepEq(f, b.r.(*StructV).f[i], u.Field(i).Type(), depth+1))
		}
		return c.And(cs...)
	case *types.Pointer:
		if a.r == nil || b.r == nil || a.r == b.r {
			return c.Bool(a.r == b.r)
		}
		return e.deepEq(*e.ptr(a), *e.ptr(b), u.Elem(), depth+1)
	case *types.Map:
		if a.r == nil || b.r == nil {
			return c.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*MapV), b.r.(*MapV)
		if x.n != y.n {
			return c.tFalse
		}
		var cs []*Term
		for i := range x.keys {
			if !x.live[i] {
				continue
			}
			j := e.mapFind(y, x.keys[i])
			if j < 0 {
				return c.tFalse
			}
			cs = append(cs, e.deepEq(x.vals[i], y.vals[j], u.Elem(), depth+1))
		}
		return c.And(cs...)
	}
	return e.eqTerm(a, b, t)
}

func debugf(f string, a ...any) {
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
