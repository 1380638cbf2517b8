package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a runtime value: a concrete scalar in c (r==nil), a symbolic scalar
// (r is *Term), or a reference.
type Val struct {
	c uint64
	r any
}

type (
	// SliceV is a non-nil slice.
	SliceV struct{ a []Val }
	// SymStr is a string with symbolic bytes.
	SymStr struct{ el []Val }
	// StructV is a struct or tuple value.
	StructV struct{ f []Val }
	// ArrV is an array value.
	ArrV struct{ a []Val }
	// IfaceV is a non-nil interface value.
	IfaceV struct {
		t types.Type
		v Val
	}
	// MapV is a map.
	MapV struct {
		keys  []Val
		vals  []Val
		live  []bool
		n     int
		index map[string]int // concrete keys only
		nsym  int            // number of live symbolic keys
		kt    types.Type
	}
	// Closure is a function with bound variables.
	Closure struct {
		fn  *ssa.Function
		env []Val
	}
	// NativeFn is an engine implemented function value.
	NativeFn struct {
		name string
		f    func(e *Exec, args []Val) Val
	}
	// ChanV is a channel.
	ChanV struct {
		id       int
		cap      int
		buf      []Val
		clocks   []vclock // of the senders of buf
		closed   bool
		recvq    []*waiter
		sendq    []*waiter
		timer    bool // pending timer
		deadline int64
		et       types.Type
	}
	// iterator for range over map/string
	iterV struct {
		m    *MapV
		keys []int
		s    Val
		pos  int
	}
)

type waiter struct {
	g       *Goroutine
	val     Val   // to send
	token   *bool // shared by all cases of a select; true when done
	deliver func(v Val, ok bool)
	vc      vclock // of g when it began to wait
}

func boolVal(b bool) Val {
	if b {
		return Val{c: 1}
	}
	return Val{}
}

func intVal(i int64) Val  { return Val{c: uint64(i)} }
func strVal(s string) Val { return Val{r: s} }

func termVal(t *Term) Val {
	if t.isConst() {
		return Val{c: t.c}
	}
	return Val{r: t}
}

func (v Val) sym() *Term {
	t, _ := v.r.(*Term)
	return t
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// widthOf gives the bit width of a scalar type (0 for bool).
func widthOf(t types.Type) uint8 {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return 0
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.UntypedRune, types.Float32:
			return 32
		}
		return 64
	}
	return 64
}

func sortOf(t types.Type) Sort {
	w := widthOf(t)
	if w == 0 {
		return sortBool
	}
	return Sort{SBV, w}
}

// term gives the term of a scalar Val of type t.
func (e *Exec) term(v Val, t types.Type) *Term {
	if x := v.sym(); x != nil {
		return x
	}
	s := sortOf(t)
	if s.k == SBool {
		return e.ctx.Bool(v.c != 0)
	}
	return e.ctx.BV(s.w, v.c)
}

func (e *Exec) byteTerm(v Val) *Term {
	if x := v.sym(); x != nil {
		return x
	}
	return e.ctx.BV(8, v.c)
}

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Val{r: ""}
		}
		return Val{}
	case *types.Struct:
		s := &StructV{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = zero(u.Field(i).Type())
		}
		return Val{r: s}
	case *types.Array:
		a := &ArrV{a: make([]Val, u.Len())}
		if u.Len() > 0 {
			if simpleZero(u.Elem()) {
				return Val{r: a}
			}
			for i := range a.a {
				a.a[i] = zero(u.Elem())
			}
		}
		return Val{r: a}
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := &StructV{f: make([]Val, u.Len())}
		for i := range s.f {
			s.f[i] = zero(u.At(i).Type())
		}
		return Val{r: s}
	}
	return Val{}
}

// simpleZero says whether the zero Val{} is right for t.
func simpleZero(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString == 0
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

// copyVal copies aggregate values.
func copyVal(v Val) Val {
	switch x := v.r.(type) {
	case *StructV:
		n := &StructV{f: make([]Val, len(x.f))}
		for i := range x.f {
			n.f[i] = copyVal(x.f[i])
		}
		return Val{r: n}
	case *ArrV:
		n := &ArrV{a: make([]Val, len(x.a))}
		for i := range x.a {
			n.a[i] = copyVal(x.a[i])
		}
		return Val{r: n}
	}
	return v
}

type undo struct {
	p *Val
	v Val
	f func()
}

func (e *Exec) set(p *Val, v Val) {
	if e.journal {
		if len(e.undos) == maxUndos {
			e.forget()
		}
		e.undos = append(e.undos, undo{p: p, v: *p})
	}
	*p = v
}

// maxUndos bounds the journal of a path: a longer path is not undone, but the
// state of the worker made anew after it.
const maxUndos = 2000000

func (e *Exec) forget() {
	e.journal, e.undos, e.stale = false, nil, true
}

func (e *Exec) onUndo(f func()) {
	if e.journal {
		e.undos = append(e.undos, undo{f: f})
	}
}

// store writes v to the cell, keeping the identity of inner cells.
func (e *Exec) store(p *Val, v Val) {
	switch x := v.r.(type) {
	case *StructV:
		if d, ok := p.r.(*StructV); ok && len(d.f) == len(x.f) {
			if d == x {
				return
			}
			for i := range x.f {
				e.store(&d.f[i], x.f[i])
			}
			return
		}
		e.set(p, copyVal(v))
		return
	case *ArrV:
		if d, ok := p.r.(*ArrV); ok && len(d.a) == len(x.a) {
			if d == x {
				return
			}
			for i := range x.a {
				e.store(&d.a[i], x.a[i])
			}
			return
		}
		e.set(p, copyVal(v))
		return
	}
	e.set(p, v)
}

// strEl gives the bytes of a string value.
func strEl(v Val) []Val {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		out := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = Val{c: uint64(s[i])}
		}
		return out
	case *SymStr:
		return s.el
	}
	panic(unsupported{fmt.Sprintf("strEl %T", v.r)})
}

func strLen(v Val) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.el)
	}
	panic(unsupported{fmt.Sprintf("strLen %T", v.r)})
}

func mkStr(el []Val) Val {
	for _, x := range el {
		if x.r != nil {
			return Val{r: &SymStr{el: append([]Val(nil), el...)}}
		}
	}
	b := make([]byte, len(el))
	for i, x := range el {
		b[i] = byte(x.c)
	}
	return Val{r: string(b)}
}

func bytesOf(v Val) []Val {
	if v.r == nil {
		return nil
	}
	if s, ok := v.r.(*SliceV); ok {
		return s.a
	}
	panic(unsupported{fmt.Sprintf("bytesOf %T", v.r)})
}

func mkBytes(b []byte) Val {
	a := make([]Val, len(b))
	for i := range b {
		a[i] = Val{c: uint64(b[i])}
	}
	return Val{r: &SliceV{a: a}}
}

func mkSlice(a []Val) Val { return Val{r: &SliceV{a: a}} }

func concreteBytes(el []Val) (string, bool) {
	b := make([]byte, len(el))
	for i, x := range el {
		if x.r != nil {
			return "", false
		}
		b[i] = byte(x.c)
	}
	return string(b), true
}

// chunks turns byte elements into a normalised chunk sequence.
func (e *Exec) chunks(el []Val) []chunk {
	var out []chunk
	var cs []byte
	flush := func() {
		if len(cs) > 0 {
			out = append(out, chunk{cs: string(cs)})
			cs = nil
		}
	}
	for i := 0; i < len(el); {
		t := el[i].sym()
		if t == nil {
			cs = append(cs, byte(el[i].c))
			i++
			continue
		}
		if t.op == OpHByte && t.c == 0 && i+32 <= len(el) {
			ok := true
			for j := 1; j < 32; j++ {
				u := el[i+j].sym()
				if u == nil || u.op != OpHByte || u.args[0] != t.args[0] || u.c != uint64(j) {
					ok = false
					break
				}
			}
			if ok {
				flush()
				out = append(out, chunk{t: t.args[0]})
				i += 32
				continue
			}
		}
		if t.op == OpB64Dig && t.c == 0 && i+44 <= len(el) && el[i+43].r == nil && el[i+43].c == '=' {
			ok := true
			for j := 1; j < 43; j++ {
				u := el[i+j].sym()
				if u == nil || u.op != OpB64Dig || u.args[0] != t.args[0] || u.c != uint64(j) {
					ok = false
					break
				}
			}
			if ok {
				flush()
				out = append(out, chunk{t: t.args[0], b64: true})
				i += 44
				continue
			}
		}
		if t.op == OpExtract && t.args[0].s.w == 64 && t.c == 63<<8|56 && i+8 <= len(el) {
			ok := true
			for j := 1; j < 8; j++ {
				u := el[i+j].sym()
				if u == nil || u.op != OpExtract || u.args[0] != t.args[0] || u.c != uint64(63-8*j)<<8|uint64(56-8*j) {
					ok = false
					break
				}
			}
			if ok {
				flush()
				out = append(out, chunk{t: t.args[0]})
				i += 8
				continue
			}
		}
		if t.op == OpHexDig && t.c == 1 && i+1 < len(el) {
			// handled pairwise by eqBytes through decoding; keep as bytes here
		}
		flush()
		out = append(out, chunk{t: t})
		i++
	}
	flush()
	return out
}

// hexRuns decodes maximal runs of hex digit pairs, for equality of hex strings.
func hexDecodable(el []Val) bool {
	if len(el) == 0 || len(el)%2 != 0 {
		return false
	}
	some := false
	for i := 0; i < len(el); i += 2 {
		a, b := el[i].sym(), el[i+1].sym()
		if a == nil && b == nil {
			if !isHexC(el[i].c) || !isHexC(el[i+1].c) {
				return false
			}
			continue
		}
		if a == nil || b == nil || a.op != OpHexDig || b.op != OpHexDig || a.c != 1 || b.c != 0 || a.args[0] != b.args[0] {
			return false
		}
		some = true
	}
	return some
}

func isHexC(c uint64) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' }

func hexVal(c uint64) uint64 {
	if c <= '9' {
		return c - '0'
	}
	return c - 'a' + 10
}

func hexDecode(el []Val) []Val {
	out := make([]Val, 0, len(el)/2)
	for i := 0; i < len(el); i += 2 {
		if a := el[i].sym(); a != nil {
			out = append(out, termVal(a.args[0]))
			continue
		}
		out = append(out, Val{c: hexVal(el[i].c)<<4 | hexVal(el[i+1].c)})
	}
	return out
}

func allHexC(el []Val) bool {
	if len(el)%2 != 0 {
		return false
	}
	for _, x := range el {
		if x.r != nil || !isHexC(x.c) {
			return false
		}
	}
	return true
}

// eqBytes is the equality term of two byte sequences.
func (e *Exec) eqBytes(a, b []Val) *Term {
	if len(a) != len(b) {
		return e.ctx.tFalse
	}
	ha, hb := hexDecodable(a), hexDecodable(b)
	if (ha || hb) && (ha || allHexC(a)) && (hb || allHexC(b)) {
		a, b = hexDecode(a), hexDecode(b)
	}
	// quick concrete mismatch
	for i := range a {
		if a[i].r == nil && b[i].r == nil && a[i].c != b[i].c {
			return e.ctx.tFalse
		}
	}
	return e.ctx.eqSeq(e.chunks(a), e.chunks(b))
}

// hashOf builds the digest bytes of a byte sequence.
func (e *Exec) shaBytes(el []Val) []Val {
	if s, ok := concreteBytes(el); ok {
		if d, ok := e.progKeys[s]; ok {
			return d
		}
		d := e.ctx.concreteSha(s)
		out := make([]Val, 32)
		for i := range out {
			out[i] = Val{c: uint64(d[i])}
		}
		return out
	}
	ks := e.chunks(el)
	if len(ks) == 1 && ks[0].t != nil {
		if d, ok := e.progSym[ks[0].t]; ok {
			return d
		}
	}
	return e.hBytes(e.ctx.ShaSeq(ks))
}

// hBytes gives the 32 bytes of a hash term.
func (e *Exec) hBytes(h *Term) []Val {
	if b, ok := e.w.hbCache[h]; ok {
		return b
	}
	out := make([]Val, 32)
	for i := range out {
		out[i] = termVal(e.ctx.HByte(h, i))
	}
	e.w.hbCache[h] = out
	return out
}

// asH views 32 bytes as one hash term.
func (e *Exec) asH(el []Val) *Term {
	ks := e.chunks(el)
	if len(ks) == 1 {
		if ks[0].t != nil && ks[0].t.s.k == SH && !ks[0].b64 {
			return ks[0].t
		}
		if ks[0].t == nil && len(ks[0].cs) == 32 {
			return e.ctx.HConst(ks[0].cs)
		}
	}
	return nil
}

// ---- maps

func (e *Exec) keyString(k Val, kt types.Type) (string, bool) {
	switch u := kt.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := k.r.(string)
			if k.r == nil {
				return "s", true
			}
			return "s" + s, ok
		}
		if k.r != nil {
			return "", false
		}
		return fmt.Sprintf("i%d", k.c), true
	case *types.Interface:
		if k.r == nil {
			return "nil", true
		}
		iv := k.r.(*IfaceV)
		s, ok := e.keyString(iv.v, iv.t)
		return iv.t.String() + "|" + s, ok
	case *types.Struct:
		var sb strings.Builder
		for i, f := range k.r.(*StructV).f {
			s, ok := e.keyString(f, u.Field(i).Type())
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(s), s)
		}
		return sb.String(), true
	case *types.Array:
		var sb strings.Builder
		for _, f := range k.r.(*ArrV).a {
			s, ok := e.keyString(f, u.Elem())
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(s), s)
		}
		return sb.String(), true
	case *types.Pointer, *types.Chan, *types.Signature:
		return fmt.Sprintf("p%p", k.r), true
	}
	panic(unsupported{"map key type " + kt.String()})
}

func newMap(kt types.Type) *MapV { return &MapV{index: map[string]int{}, kt: kt} }

// mapFind returns the slot of key k or -1, forking on symbolic equality.
func (e *Exec) mapFind(m *MapV, k Val) int {
	ks, conc := e.keyString(k, m.kt)
	if conc {
		if i, ok := m.index[ks]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if conc {
			if _, c2 := e.keyString(m.keys[i], m.kt); c2 {
				continue
			}
		}
		if e.branch(e.eqTerm(m.keys[i], k, m.kt)) {
			return i
		}
	}
	return -1
}

func (e *Exec) mapSet(m *MapV, k, v Val) {
	i := e.mapFind(m, k)
	if i >= 0 {
		e.set(&m.vals[i], copyVal(v))
		return
	}
	if e.journal {
		on, onsym, olen := m.n, m.nsym, len(m.keys)
		ks0, conc0 := e.keyString(k, m.kt)
		e.onUndo(func() {
			m.n, m.nsym = on, onsym
			m.keys, m.vals, m.live = m.keys[:olen], m.vals[:olen], m.live[:olen]
			if conc0 {
				delete(m.index, ks0)
			}
		})
	}
	ks, conc := e.keyString(k, m.kt)
	if conc {
		m.index[ks] = len(m.keys)
	} else {
		m.nsym++
	}
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, copyVal(v))
	m.live = append(m.live, true)
	m.n++
}

func (e *Exec) mapDelete(m *MapV, k Val) {
	i := e.mapFind(m, k)
	if i < 0 {
		return
	}
	ks, conc := e.keyString(m.keys[i], m.kt)
	on, onsym := m.n, m.nsym
	e.onUndo(func() {
		m.n, m.nsym = on, onsym
		m.live[i] = true
		if conc {
			m.index[ks] = i
		}
	})
	m.live[i] = false
	m.n--
	if conc {
		delete(m.index, ks)
	} else {
		m.nsym--
	}
}

// eqTerm is the equality of two values of static type t.
func (e *Exec) eqTerm(a, b Val, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if x, ok := a.r.(string); ok {
				if y, ok := b.r.(string); ok {
					return e.ctx.Bool(x == y)
				}
			}
			return e.eqBytes(strEl(a), strEl(b))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return e.ctx.Bool(a.r == b.r)
		}
		if a.r == nil && b.r == nil {
			return e.ctx.Bool(a.c == b.c)
		}
		return e.ctx.Eq(e.term(a, t), e.term(b, t))
	case *types.Interface:
		if a.r == nil || b.r == nil {
			return e.ctx.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*IfaceV), b.r.(*IfaceV)
		if !types.Identical(x.t, y.t) {
			return e.ctx.tFalse
		}
		switch x.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			e.goPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return e.eqTerm(x.v, y.v, x.t)
	case *types.Struct:
		var cs []*Term
		for i, f := range a.r.(*StructV).f {
			cs = append(cs, e.eqTerm(f, b.r.(*StructV).f[i], u.Field(i).Type()))
		}
		return e.ctx.And(cs...)
	case *types.Array:
		if widthOf(u.Elem()) == 8 {
			if _, ok := u.Elem().Underlying().(*types.Basic); ok {
				return e.eqBytes(a.r.(*ArrV).a, b.r.(*ArrV).a)
			}
		}
		var cs []*Term
		for i, f := range a.r.(*ArrV).a {
			cs = append(cs, e.eqTerm(f, b.r.(*ArrV).a[i], u.Elem()))
		}
		return e.ctx.And(cs...)
	case *types.Slice, *types.Map, *types.Signature, *types.Pointer, *types.Chan:
		return e.ctx.Bool(a.r == b.r)
	}
	panic(unsupported{"eq of " + t.String()})
}
