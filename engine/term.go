package main

import (
	"encoding/base64"
	"fmt"
	"strconv"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OpConst Op = iota // BV/Bool constant in c
	OpVar             // free variable
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq // any sort
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpSdiv
	OpUrem
	OpSrem
	OpBand
	OpBor
	OpBxor
	OpShl
	OpLshr
	OpAshr
	OpExtract // c = hi<<8|lo
	OpConcat
	OpZext // to sort.w
	OpSext
	OpHByte  // byte c of hash term
	OpHexDig // c=1 high digit, 0 low digit of the byte arg as lower case hex
	OpB64Six // base64 character of a 6 bit value (8 bits wide)
	OpB64Dig // character c of the standard base64 text of a hash
	// H sort
	OpHConst // name = 32 raw bytes
	OpSha    // name = shape, args
	OpEnc    // name = tag, args: an injective opaque encoding
	OpFun    // name = tag: uninterpreted, non injective function of args (any sort)
)

// SortKind is Bool, BV or H.
type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SH
)

// Sort of a term.
type Sort struct {
	k SortKind
	w uint8
}

var (
	sortBool = Sort{SBool, 0}
	sortH    = Sort{SH, 0}
)

func bv(w int) Sort { return Sort{SBV, uint8(w)} }

// Term is a hash-consed term.
type Term struct {
	op    Op
	s     Sort
	c     uint64
	name  string
	args  []*Term
	id    int
	total int // for OpSha: total input length in bytes
	depth int
}

type termKey struct {
	op         Op
	s          Sort
	c          uint64
	name       string
	a0, a1, a2 int
	n          int
	rest       string
}

// Ctx owns terms (one per worker).
type Ctx struct {
	tab     map[termKey]*Term
	all     []*Term
	tTrue   *Term
	tFalse  *Term
	digests map[string]string // concrete digest -> concrete preimage
	// path substitution (reset for every path)
	sub     map[*Term]*Term
	subMemo map[*Term]*Term
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, digests: map[string]string{}}
	c.tTrue = c.mk(OpConst, sortBool, 1, "")
	c.tFalse = c.mk(OpConst, sortBool, 0, "")
	c.resetSub()
	return c
}

func (c *Ctx) resetSub() {
	c.sub = map[*Term]*Term{}
	c.subMemo = map[*Term]*Term{}
}

func (c *Ctx) mk(op Op, s Sort, cv uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, s: s, c: cv, name: name, n: len(args), a0: -1, a1: -1, a2: -1}
	switch {
	case len(args) > 3:
		var sb strings.Builder
		for _, a := range args[3:] {
			sb.WriteString(strconv.Itoa(a.id))
			sb.WriteByte(',')
		}
		k.rest = sb.String()
		fallthrough
	case len(args) == 3:
		k.a2 = args[2].id
		fallthrough
	case len(args) == 2:
		k.a1 = args[1].id
		fallthrough
	case len(args) == 1:
		k.a0 = args[0].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, s: s, c: cv, name: name, id: len(c.all)}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
		for _, a := range args {
			if a.depth >= t.depth {
				t.depth = a.depth + 1
			}
		}
	}
	c.tab[k] = t
	c.all = append(c.all, t)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

// BV makes a constant.
func (c *Ctx) BV(w uint8, v uint64) *Term { return c.mk(OpConst, Sort{SBV, w}, v&mask(w), "") }

// Bool makes a boolean constant.
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

// Var makes a variable.
func (c *Ctx) Var(name string, s Sort) *Term { return c.mk(OpVar, s, 0, name) }

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.s.k == SBool && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.s.k == SBool && t.c == 0 }

// Not negates.
func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.isConst():
		return c.Bool(a.c == 0)
	case a.op == OpNot:
		return a.args[0]
	}
	return c.mk(OpNot, sortBool, 0, "", a)
}

// And conjoins.
func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.isTrue() || seen[a] {
			continue
		}
		if a.isFalse() {
			return a
		}
		if a.op == OpAnd {
			for _, b := range a.args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == OpNot && seen[a.args[0]] {
			return c.tFalse
		}
	}
	switch len(out) {
	case 0:
		return c.tTrue
	case 1:
		return out[0]
	}
	return c.mk(OpAnd, sortBool, 0, "", out...)
}

// Or disjoins.
func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.isFalse() || seen[a] {
			continue
		}
		if a.isTrue() {
			return a
		}
		if a.op == OpOr {
			for _, b := range a.args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == OpNot && seen[a.args[0]] {
			return c.tTrue
		}
	}
	switch len(out) {
	case 0:
		return c.tFalse
	case 1:
		return out[0]
	}
	return c.mk(OpOr, sortBool, 0, "", out...)
}

// Ite is if-then-else.
func (c *Ctx) Ite(a, b, d *Term) *Term {
	if a.isConst() {
		if a.c == 1 {
			return b
		}
		return d
	}
	if b == d {
		return b
	}
	if b.s.k == SBool {
		if b.isTrue() && d.isFalse() {
			return a
		}
		if b.isFalse() && d.isTrue() {
			return c.Not(a)
		}
		return c.And(c.Or(c.Not(a), b), c.Or(a, d))
	}
	return c.mk(OpIte, b.s, 0, "", a, b, d)
}

func (c *Ctx) contains(t, x *Term) bool {
	if t == x {
		return true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] || len(t.args) == 0 {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Eq is equality on any sort.
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.s != b.s {
		panic(fmt.Sprintf("Eq of different sorts %v %v", a, b))
	}
	switch a.s.k {
	case SBool:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 1 {
				return a
			}
			return c.Not(a)
		}
		if a.op == OpNot && a.args[0] == b || b.op == OpNot && b.args[0] == a {
			return c.tFalse
		}
	case SBV:
		if a.isConst() && b.isConst() {
			return c.tFalse
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case OpIte:
				t1, t2 := a.args[1], a.args[2]
				if t1.isConst() || t2.isConst() {
					return c.Ite(a.args[0], c.Eq(t1, b), c.Eq(t2, b))
				}
			case OpZext:
				x := a.args[0]
				if b.c&^mask(x.s.w) != 0 {
					return c.tFalse
				}
				return c.Eq(x, c.BV(x.s.w, b.c))
			case OpConcat:
				lo := a.args[1]
				return c.And(c.Eq(a.args[0], c.BV(a.args[0].s.w, b.c>>lo.s.w)), c.Eq(lo, c.BV(lo.s.w, b.c)))
			case OpAdd:
				if a.args[1].isConst() {
					return c.Eq(a.args[0], c.BV(a.s.w, b.c-a.args[1].c))
				}
			case OpB64Six:
				i := strings.IndexByte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", byte(b.c))
				if i < 0 {
					return c.tFalse
				}
				return c.Eq(a.args[0], c.BV(8, uint64(i)))
			case OpB64Dig:
				if strings.IndexByte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", byte(b.c)) < 0 {
					return c.tFalse
				}
			case OpHexDig:
				if strings.IndexByte("0123456789abcdef", byte(b.c)) < 0 {
					return c.tFalse
				}
				return c.mk(OpEq, sortBool, 0, "", a, b)
			}
		}
		if a.op == OpB64Six && b.op == OpB64Six {
			return c.Eq(a.args[0], b.args[0])
		}
		// x+c1 == x+c2
		ax, ac := c.splitAdd(a)
		bx, bc := c.splitAdd(b)
		if ax == bx && ax != nil {
			return c.Bool(ac == bc)
		}
	case SH:
		return c.eqH(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, sortBool, 0, "", a, b)
}

func (c *Ctx) splitAdd(a *Term) (*Term, uint64) {
	if a.op == OpAdd && a.args[1].isConst() {
		return a.args[0], a.args[1].c
	}
	if a.isConst() {
		return nil, a.c
	}
	return a, 0
}

func (c *Ctx) eqH(a, b *Term) *Term {
	if a.op == OpVar || a.op == OpIte || a.op == OpFun {
		a, b = b, a
	}
	if b.op == OpIte {
		return c.Ite(b.args[0], c.Eq(a, b.args[1]), c.Eq(a, b.args[2]))
	}
	if b.op == OpVar || b.op == OpFun {
		if b.op == OpVar && a.op != OpVar && c.contains(a, b) {
			return c.tFalse // a hash term never equals its own (strict) component
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OpEq, sortBool, 0, "", a, b)
	}
	if a.op == OpHConst && b.op == OpHConst {
		return c.tFalse
	}
	if a.op == OpEnc || b.op == OpEnc {
		if a.op != b.op || a.name != b.name || len(a.args) != len(b.args) {
			return c.tFalse
		}
		var cs []*Term
		for i := range a.args {
			if a.args[i].s != b.args[i].s {
				return c.tFalse
			}
			e := c.Eq(a.args[i], b.args[i])
			if e.isFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return c.And(cs...)
	}
	if a.op == OpHConst {
		a, b = b, a
	}
	if b.op == OpHConst { // a is Sha of something symbolic
		p, ok := c.digests[b.name]
		if !ok || len(p) != a.total {
			return c.tFalse
		}
		return c.eqSeq(c.shaInput(a), c.constSeq(p))
	}
	// both Sha
	if a.total != b.total {
		return c.tFalse
	}
	return c.eqSeq(c.shaInput(a), c.shaInput(b))
}

// chunk is a piece of a byte sequence.
type chunk struct {
	cs  string // constant bytes when t==nil
	t   *Term  // H (32 bytes), or BV (w/8 bytes, big endian)
	b64 bool   // the 44 characters of the base64 text of t (H)
}

func (k chunk) length() int {
	if k.t == nil {
		return len(k.cs)
	}
	if k.b64 {
		return 44
	}
	if k.t.s.k == SH {
		return 32
	}
	return int(k.t.s.w) / 8
}

func (c *Ctx) constSeq(s string) []chunk {
	if len(s) == 0 {
		return nil
	}
	return []chunk{{cs: s}}
}

// chunk shape encoding for OpSha names: sequence of "c<hex>;" "H;" "b<w>;"
func shapeOf(ks []chunk) (string, []*Term, int) {
	var sb strings.Builder
	var args []*Term
	n := 0
	for _, k := range ks {
		n += k.length()
		switch {
		case k.t == nil:
			fmt.Fprintf(&sb, "c%x;", k.cs)
		case k.b64:
			sb.WriteString("B;")
			args = append(args, k.t)
		case k.t.s.k == SH:
			sb.WriteString("H;")
			args = append(args, k.t)
		default:
			fmt.Fprintf(&sb, "b%d;", k.t.s.w)
			args = append(args, k.t)
		}
	}
	return sb.String(), args, n
}

func (c *Ctx) shaInput(t *Term) []chunk {
	var out []chunk
	i := 0
	for _, p := range strings.Split(t.name, ";") {
		if p == "" {
			continue
		}
		switch p[0] {
		case 'c':
			out = append(out, chunk{cs: unhex(p[1:])})
		default:
			out = append(out, chunk{t: t.args[i], b64: p[0] == 'B'})
			i++
		}
	}
	return out
}

func unhex(s string) string {
	b := make([]byte, len(s)/2)
	for i := range b {
		v, _ := strconv.ParseUint(s[2*i:2*i+2], 16, 8)
		b[i] = byte(v)
	}
	return string(b)
}

// splitAt makes chunk boundaries explicit at off, by breaking chunks into bytes when needed.
func (c *Ctx) chunkBytes(k chunk, from, to int) []chunk {
	if k.t == nil {
		return []chunk{{cs: k.cs[from:to]}}
	}
	if from == 0 && to == k.length() {
		return []chunk{k}
	}
	var out []chunk
	if k.t.s.k == SH {
		for i := from; i < to; i++ {
			var b *Term
			if k.b64 {
				b = c.B64Dig(k.t, i)
			} else {
				b = c.HByte(k.t, i)
			}
			if b.isConst() {
				out = append(out, chunk{cs: string([]byte{byte(b.c)})})
			} else {
				out = append(out, chunk{t: b})
			}
		}
		return out
	}
	n := k.length()
	for i := from; i < to; i++ {
		lo := uint8(8 * (n - 1 - i))
		b := c.Extract(k.t, lo+7, lo)
		if b.isConst() {
			out = append(out, chunk{cs: string([]byte{byte(b.c)})})
		} else {
			out = append(out, chunk{t: b})
		}
	}
	return out
}

func (c *Ctx) eqSeq(a, b []chunk) *Term {
	var conj []*Term
	i, j := 0, 0
	a = append([]chunk(nil), a...)
	b = append([]chunk(nil), b...)
	for i < len(a) && j < len(b) {
		la, lb := a[i].length(), b[j].length()
		if la == 0 {
			i++
			continue
		}
		if lb == 0 {
			j++
			continue
		}
		if la == lb {
			e := c.eqChunk(a[i], b[j])
			if e.isFalse() {
				return e
			}
			conj = append(conj, e)
			i++
			j++
			continue
		}
		// break the longer
		if la > lb {
			a = c.resplit(a, i, lb)
		} else {
			b = c.resplit(b, j, la)
		}
	}
	for i < len(a) {
		if a[i].length() != 0 {
			return c.tFalse
		}
		i++
	}
	for j < len(b) {
		if b[j].length() != 0 {
			return c.tFalse
		}
		j++
	}
	return c.And(conj...)
}

// resplit splits ks[i] so that its first piece has length n.
func (c *Ctx) resplit(ks []chunk, i, n int) []chunk {
	k := ks[i]
	var parts []chunk
	if k.t == nil {
		parts = []chunk{{cs: k.cs[:n]}, {cs: k.cs[n:]}}
	} else {
		parts = c.chunkBytes(k, 0, k.length()) // whole; break into bytes
		if len(parts) == 1 {
			parts = nil
			for x := 0; x < k.length(); x++ {
				parts = append(parts, c.chunkBytes(k, x, x+1)...)
			}
		}
	}
	out := append([]chunk(nil), ks[:i]...)
	out = append(out, parts...)
	return append(out, ks[i+1:]...)
}

func (c *Ctx) eqChunk(x, y chunk) *Term {
	if x.t == nil && y.t == nil {
		return c.Bool(x.cs == y.cs)
	}
	if x.t == nil {
		x, y = y, x
	}
	if y.t == nil {
		if x.b64 {
			d, err := base64.StdEncoding.Strict().DecodeString(y.cs)
			if err != nil || len(d) != 32 {
				return c.tFalse
			}
			return c.Eq(x.t, c.HConst(string(d)))
		}
		if x.t.s.k == SH {
			return c.Eq(x.t, c.HConst(y.cs))
		}
		v := uint64(0)
		for i := 0; i < len(y.cs); i++ {
			v = v<<8 | uint64(y.cs[i])
		}
		return c.Eq(x.t, c.BV(x.t.s.w, v))
	}
	if x.t.s == y.t.s {
		return c.Eq(x.t, y.t)
	}
	// H vs BV cannot have the same length (BV is at most 8 bytes)
	panic("eqChunk")
}

// HConst is a literal hash.
func (c *Ctx) HConst(raw string) *Term {
	if len(raw) != 32 {
		panic("HConst length")
	}
	return c.mk(OpHConst, sortH, 0, raw)
}

// HByte is the i-th byte of a hash.
func (c *Ctx) HByte(h *Term, i int) *Term {
	if h.op == OpHConst {
		return c.BV(8, uint64(h.name[i]))
	}
	return c.mk(OpHByte, bv(8), uint64(i), "", h)
}

// B64Six is the base64 character of a value below 64.
func (c *Ctx) B64Six(v *Term) *Term {
	if v.isConst() {
		return c.BV(8, uint64("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[v.c&63]))
	}
	return c.mk(OpB64Six, bv(8), 0, "", v)
}

// B64Dig is the i-th character of the base64 text of a hash.
func (c *Ctx) B64Dig(h *Term, i int) *Term {
	if i == 43 {
		return c.BV(8, '=')
	}
	if h.op == OpHConst {
		return c.BV(8, uint64(base64.StdEncoding.EncodeToString([]byte(h.name))[i]))
	}
	return c.mk(OpB64Dig, bv(8), uint64(i), "", h)
}

// Sha makes the digest of a sequence with at least one symbolic chunk.
func (c *Ctx) Sha(ks []chunk) *Term {
	// canonical form for the 65 byte interior node shape
	n := 0
	for _, k := range ks {
		n += k.length()
	}
	if n == 65 && len(ks) > 0 && ks[0].t == nil && len(ks[0].cs) > 0 && ks[0].cs[0] == 1 {
		if l, r, ok := c.nodeSplit(ks); ok {
			ks = []chunk{{cs: "\x01"}, {t: l}, {t: r}}
		}
	}
	name, args, tot := shapeOf(ks)
	t := c.mk(OpSha, sortH, 0, name, args...)
	t.total = tot
	return t
}

func (c *Ctx) nodeSplit(ks []chunk) (l, r *Term, ok bool) {
	// drop the tag
	ks = append([]chunk{{cs: ks[0].cs[1:]}}, ks[1:]...)
	take := func() *Term {
		for len(ks) > 0 && ks[0].length() == 0 {
			ks = ks[1:]
		}
		if len(ks) == 0 {
			return nil
		}
		k := ks[0]
		if k.t != nil {
			if k.t.s.k != SH || k.b64 {
				return nil
			}
			ks = ks[1:]
			return k.t
		}
		if len(k.cs) < 32 {
			return nil
		}
		ks = append([]chunk{{cs: k.cs[32:]}}, ks[1:]...)
		return c.HConst(k.cs[:32])
	}
	l = take()
	if l == nil {
		return nil, nil, false
	}
	r = take()
	if r == nil {
		return nil, nil, false
	}
	return l, r, true
}

// Enc is an injective encoding.
func (c *Ctx) Enc(tag string, args ...*Term) *Term { return c.mk(OpEnc, sortH, 0, tag, args...) }

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.s.w {
		return a
	}
	switch a.op {
	case OpConst:
		return c.BV(w, a.c>>lo)
	case OpExtract:
		base := uint8(a.c & 0xff)
		return c.Extract(a.args[0], hi+base, lo+base)
	case OpZext:
		x := a.args[0]
		if hi < x.s.w {
			return c.Extract(x, hi, lo)
		}
		if lo >= x.s.w {
			return c.BV(w, 0)
		}
	case OpConcat:
		l := a.args[1]
		if hi < l.s.w {
			return c.Extract(l, hi, lo)
		}
		if lo >= l.s.w {
			return c.Extract(a.args[0], hi-l.s.w, lo-l.s.w)
		}
	case OpIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	case OpLshr:
		if a.args[1].isConst() {
			sh := a.args[1].c
			if uint64(hi)+sh < uint64(a.s.w) {
				return c.Extract(a.args[0], hi+uint8(sh), lo+uint8(sh))
			}
			if uint64(lo)+sh >= uint64(a.s.w) {
				return c.BV(w, 0)
			}
		}
	case OpShl:
		if a.args[1].isConst() {
			sh := a.args[1].c
			if uint64(lo) >= sh && sh < 256 {
				return c.Extract(a.args[0], hi-uint8(sh), lo-uint8(sh))
			}
			if uint64(hi) < sh {
				return c.BV(w, 0)
			}
		}
	case OpBor, OpBand, OpBxor:
		x, y := c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo)
		return c.Bin(a.op, x, y)
	}
	return c.mk(OpExtract, bv(int(w)), uint64(hi)<<8|uint64(lo), "", a)
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.s.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(w, a.c)
	}
	if a.op == OpZext {
		return c.Zext(a.args[0], w)
	}
	if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.Zext(a.args[1], w), c.Zext(a.args[2], w))
	}
	return c.mk(OpZext, Sort{SBV, w}, 0, "", a)
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.s.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(w, uint64(sext(a.c, a.s.w)))
	}
	return c.mk(OpSext, Sort{SBV, w}, 0, "", a)
}

// Resize truncates or extends.
func (c *Ctx) Resize(a *Term, w uint8, signed bool) *Term {
	if w < a.s.w {
		return c.Extract(a, w-1, 0)
	}
	if signed {
		return c.Sext(a, w)
	}
	return c.Zext(a, w)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	switch op {
	case OpAdd:
		return x + y, true
	case OpSub:
		return x - y, true
	case OpMul:
		return x * y, true
	case OpUdiv:
		if y == 0 {
			return 0, false
		}
		return x / y, true
	case OpUrem:
		if y == 0 {
			return 0, false
		}
		return x % y, true
	case OpSdiv:
		if y == 0 {
			return 0, false
		}
		a, b := sext(x, w), sext(y, w)
		if b == -1 {
			return uint64(-a), true
		}
		return uint64(a / b), true
	case OpSrem:
		if y == 0 {
			return 0, false
		}
		a, b := sext(x, w), sext(y, w)
		if b == -1 {
			return 0, true
		}
		return uint64(a % b), true
	case OpBand:
		return x & y, true
	case OpBor:
		return x | y, true
	case OpBxor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w) >> y), true
	}
	return 0, false
}

// Bin builds a binary BV term.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.s.w
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, w, a.c, b.c); ok {
			return c.BV(w, v)
		}
	}
	switch op {
	case OpSub:
		if b.isConst() {
			return c.Bin(OpAdd, a, c.BV(w, -b.c))
		}
		if a == b {
			return c.BV(w, 0)
		}
		ax, ac := c.splitAdd(a)
		bx, bc := c.splitAdd(b)
		if ax != nil && ax == bx {
			return c.BV(w, ac-bc)
		}
		// (y+x)-y
		if a.op == OpAdd && a.args[0] == b {
			return a.args[1]
		}
		if a.op == OpAdd && a.args[1] == b {
			return a.args[0]
		}
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].isConst() {
				return c.Bin(OpAdd, a.args[0], c.BV(w, a.args[1].c+b.c))
			}
			if a.op == OpSub && a.args[0].isConst() {
				return c.mk(OpSub, a.s, 0, "", c.BV(w, a.args[0].c+b.c), a.args[1])
			}
		}
		if b.op == OpSub && b.args[1] == a {
			return b.args[0]
		}
		if a.op == OpSub && a.args[1] == b {
			return a.args[0]
		}
		// float constants to the top: (x+c)+y -> (x+y)+c
		if !b.isConst() {
			if a.op == OpAdd && a.args[1].isConst() {
				return c.Bin(OpAdd, c.Bin(OpAdd, a.args[0], b), a.args[1])
			}
			if b.op == OpAdd && b.args[1].isConst() {
				return c.Bin(OpAdd, c.Bin(OpAdd, a, b.args[0]), b.args[1])
			}
		}
	case OpBand:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
			if b.c == 1 && w > 1 {
				return c.Zext(c.Extract(a, 0, 0), w)
			}
			// low masks
			for k := uint8(1); k < w; k++ {
				if b.c == mask(k) {
					return c.Zext(c.Extract(a, k-1, 0), w)
				}
			}
		}
		if a == b {
			return a
		}
	case OpBor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.c == 0 {
			return a
		}
		if a == b {
			return a
		}
		if r := c.mergeOr(a, b); r != nil {
			return r
		}
	case OpBxor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.c == 0 {
			return a
		}
		if a == b {
			return c.BV(w, 0)
		}
	case OpShl, OpLshr, OpAshr:
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if b.c >= uint64(w) && op != OpAshr {
				return c.BV(w, 0)
			}
			if a.op == op && a.args[1].isConst() && op != OpAshr {
				s := a.args[1].c + b.c
				if s >= uint64(w) {
					return c.BV(w, 0)
				}
				return c.Bin(op, a.args[0], c.BV(w, s))
			}
		}
		if a.isConst() && a.c == 0 {
			return a
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
	case OpUdiv, OpSdiv:
		if b.isConst() && b.c == 1 {
			return a
		}
		if op == OpUdiv && b.isConst() && b.c != 0 && b.c&(b.c-1) == 0 {
			k := uint64(0)
			for (uint64(1) << k) != b.c {
				k++
			}
			return c.Bin(OpLshr, a, c.BV(w, k))
		}
	case OpUrem:
		if b.isConst() && b.c != 0 && b.c&(b.c-1) == 0 {
			return c.Bin(OpBand, a, c.BV(w, b.c-1))
		}
	}
	return c.mk(op, a.s, 0, "", a, b)
}

// mergeOr recognises the disjoint union of shifted bytes that rebuilds a word.
func (c *Ctx) mergeOr(a, b *Term) *Term {
	// collect (byte term, shift) leaves
	w := a.s.w
	type leaf struct {
		t  *Term
		sh uint64
	}
	var leaves []leaf
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		switch {
		case t.op == OpBor:
			return rec(t.args[0]) && rec(t.args[1])
		case t.op == OpZext:
			leaves = append(leaves, leaf{t.args[0], 0})
			return true
		case t.op == OpShl && t.args[1].isConst() && t.args[0].op == OpZext:
			leaves = append(leaves, leaf{t.args[0].args[0], t.args[1].c})
			return true
		}
		return false
	}
	if !rec(a) || !rec(b) {
		return nil
	}
	total := uint64(0)
	for _, l := range leaves {
		total += uint64(l.t.s.w)
	}
	if total != uint64(w) {
		return nil
	}
	// all must be extracts of the same base at the matching place
	var base *Term
	for _, l := range leaves {
		if l.t.op != OpExtract || l.t.c&0xff != l.sh {
			return nil
		}
		if base == nil {
			base = l.t.args[0]
		} else if base != l.t.args[0] {
			return nil
		}
	}
	if base == nil || base.s.w != w {
		return nil
	}
	return base
}

// Cmp builds a comparison.
func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	w := a.s.w
	if a.isConst() && b.isConst() {
		switch op {
		case OpUlt:
			return c.Bool(a.c < b.c)
		case OpUle:
			return c.Bool(a.c <= b.c)
		case OpSlt:
			return c.Bool(sext(a.c, w) < sext(b.c, w))
		case OpSle:
			return c.Bool(sext(a.c, w) <= sext(b.c, w))
		}
	}
	if a == b {
		return c.Bool(op == OpUle || op == OpSle)
	}
	switch op {
	case OpUlt:
		if b.isConst() && b.c == 0 {
			return c.tFalse
		}
	case OpUle:
		if a.isConst() && a.c == 0 {
			return c.tTrue
		}
	}
	// normal form: only Ult/Slt
	if op == OpUle {
		return c.Not(c.Cmp(OpUlt, b, a))
	}
	if op == OpSle {
		return c.Not(c.Cmp(OpSlt, b, a))
	}
	return c.mk(op, sortBool, 0, "", a, b)
}

// HexDig is the hex digit of a byte.
func (c *Ctx) HexDig(b *Term, hi bool) *Term {
	v := uint64(0)
	if hi {
		v = 1
	}
	if b.isConst() {
		d := b.c & 15
		if hi {
			d = b.c >> 4
		}
		return c.BV(8, uint64("0123456789abcdef"[d]))
	}
	return c.mk(OpHexDig, bv(8), v, "", b)
}

// rebuild constructs the same operator over new args with simplification.
func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OpNot:
		return c.Not(a[0])
	case OpAnd:
		return c.And(a...)
	case OpOr:
		return c.Or(a...)
	case OpIte:
		return c.Ite(a[0], a[1], a[2])
	case OpEq:
		return c.Eq(a[0], a[1])
	case OpUlt, OpUle, OpSlt, OpSle:
		return c.Cmp(t.op, a[0], a[1])
	case OpAdd, OpSub, OpMul, OpUdiv, OpSdiv, OpUrem, OpSrem, OpBand, OpBor, OpBxor, OpShl, OpLshr, OpAshr:
		return c.Bin(t.op, a[0], a[1])
	case OpExtract:
		return c.Extract(a[0], uint8(t.c>>8), uint8(t.c&0xff))
	case OpConcat:
		return c.Concat(a[0], a[1])
	case OpZext:
		return c.Zext(a[0], t.s.w)
	case OpSext:
		return c.Sext(a[0], t.s.w)
	case OpHByte:
		return c.HByte(a[0], int(t.c))
	case OpHexDig:
		return c.HexDig(a[0], t.c == 1)
	case OpB64Six:
		return c.B64Six(a[0])
	case OpB64Dig:
		return c.B64Dig(a[0], int(t.c))
	case OpSha:
		return c.rebuildSha(t, a)
	case OpEnc:
		return c.Enc(t.name, a...)
	case OpFun:
		return c.mk(OpFun, t.s, t.c, t.name, a...)
	}
	return t
}

func (c *Ctx) rebuildSha(t *Term, a []*Term) *Term {
	ks := c.shaInput(t)
	i := 0
	for x := range ks {
		if ks[x].t != nil {
			ks[x].t = a[i]
			i++
		}
	}
	return c.ShaSeq(ks)
}

// ShaSeq normalises constants and hashes concretely when possible.
func (c *Ctx) ShaSeq(ks []chunk) *Term {
	var out []chunk
	conc := true
	for _, k := range ks {
		if k.t != nil && k.t.s.k == SBV && k.t.isConst() {
			n := k.length()
			b := make([]byte, n)
			for i := 0; i < n; i++ {
				b[i] = byte(k.t.c >> (8 * uint(n-1-i)))
			}
			k = chunk{cs: string(b)}
		}
		if k.t != nil && k.t.op == OpHConst {
			if k.b64 {
				k = chunk{cs: base64.StdEncoding.EncodeToString([]byte(k.t.name))}
			} else {
				k = chunk{cs: k.t.name}
			}
		}
		if k.length() == 0 {
			continue
		}
		if k.t != nil {
			conc = false
		}
		if k.t == nil && len(out) > 0 && out[len(out)-1].t == nil {
			out[len(out)-1].cs += k.cs
			continue
		}
		out = append(out, k)
	}
	if conc {
		s := ""
		if len(out) > 0 {
			s = out[0].cs
		}
		return c.HConst(c.concreteSha(s))
	}
	return c.Sha(out)
}

// Concat joins a (high) and b (low).
func (c *Ctx) Concat(a, b *Term) *Term {
	if a.isConst() && b.isConst() && int(a.s.w)+int(b.s.w) <= 64 {
		return c.BV(a.s.w+b.s.w, a.c<<b.s.w|b.c)
	}
	return c.mk(OpConcat, Sort{SBV, a.s.w + b.s.w}, 0, "", a, b)
}

// Subst rewrites t under the current path substitution.
func (c *Ctx) Subst(t *Term) *Term {
	if len(c.sub) == 0 {
		return t
	}
	if r, ok := c.subMemo[t]; ok {
		return r
	}
	if r, ok := c.sub[t]; ok {
		r2 := c.Subst(r)
		c.subMemo[t] = r2
		return r2
	}
	if len(t.args) == 0 {
		return t
	}
	var na []*Term
	for i, a := range t.args {
		b := c.Subst(a)
		if b != a && na == nil {
			na = append([]*Term(nil), t.args...)
		}
		if na != nil {
			na[i] = b
		}
	}
	r := t
	if na != nil {
		r = c.rebuild(t, na)
		if r != t {
			if r2, ok := c.sub[r]; ok {
				r = c.Subst(r2)
			}
		}
	}
	c.subMemo[t] = r
	return r
}

// Learn records that a (true) literal holds, as substitutions where it can.
func (c *Ctx) Learn(t *Term) {
	add := func(k, v *Term) {
		if k == v {
			return
		}
		c.sub[k] = v
		c.subMemo = map[*Term]*Term{}
	}
	switch t.op {
	case OpAnd:
		for _, a := range t.args {
			c.Learn(a)
		}
		return
	case OpNot:
		add(t.args[0], c.tFalse)
		return
	case OpConst:
		return
	case OpEq:
		a, b := t.args[0], t.args[1]
		if a.isConst() || a.op == OpHConst {
			a, b = b, a
		}
		if a.op != OpVar && b.op == OpVar {
			a, b = b, a
		}
		if a.op == OpVar && !c.contains(b, a) {
			add(a, b)
			return
		}
		if b.isConst() && a.s.k == SBV && (a.op == OpHByte || a.op == OpExtract || a.op == OpZext || a.op == OpFun) {
			add(a, b)
		}
		if a.op == OpFun && a.s.k == SH && !c.contains(b, a) {
			add(a, b)
			return
		}
	}
	add(t, c.tTrue)
}

func (t *Term) String() string {
	d := 0
	return t.str(&d)
}

func (t *Term) str(n *int) string {
	*n++
	if *n > 60 {
		return "…"
	}
	switch t.op {
	case OpConst:
		if t.s.k == SBool {
			return strconv.FormatBool(t.c == 1)
		}
		return fmt.Sprintf("%d", sext(t.c, t.s.w))
	case OpVar:
		return t.name
	case OpHConst:
		return fmt.Sprintf("h'%x'", t.name[:4])
	}
	names := map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "u<", OpSlt: "s<", OpAdd: "+", OpSub: "-", OpMul: "*",
		OpBand: "&", OpBor: "|", OpBxor: "^", OpShl: "<<", OpLshr: ">>", OpAshr: ">>s", OpExtract: "extract", OpConcat: "concat", OpZext: "zext", OpSext: "sext",
		OpHByte: "byte", OpHexDig: "hexdig", OpB64Dig: "b64dig", OpB64Six: "b64", OpSha: "sha", OpEnc: "enc", OpFun: "fun", OpUdiv: "u/", OpSdiv: "/", OpUrem: "u%", OpSrem: "%"}
	s := "(" + names[t.op]
	if t.op == OpSha || t.op == OpEnc || t.op == OpFun {
		nm := t.name
		if len(nm) > 40 {
			nm = nm[:40]
		}
		s += "[" + nm + "]"
	}
	if t.op == OpHByte || t.op == OpExtract || t.op == OpHexDig {
		s += fmt.Sprintf("[%d]", t.c)
	}
	for _, a := range t.args {
		s += " " + a.str(n)
	}
	return s + ")"
}
