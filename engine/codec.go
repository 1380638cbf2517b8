package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// blob is the payload behind an opaque encoding.
type blob struct {
	t types.Type // struct type
	v Val        // StructV
}

func codecs() {
	reg := func(n string, f hfn) { intrinsics[n] = plain(f) }
	const P = "google.golang.org/protobuf/proto."
	msg := func(a Val) (Val, *types.Named) {
		iv, ok := a.r.(*IfaceV)
		if !ok {
			return Val{}, nil
		}
		p, ok := iv.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported{"proto message " + iv.t.String()})
		}
		return iv.v, p.Elem().(*types.Named)
	}
	reg(P+"Marshal", func(e *Exec, a []Val) Val {
		m, t := msg(a[0])
		if t == nil || m.r == nil {
			return tuple(Val{}, Val{})
		}
		return tuple(e.protoMarshal(m, t), Val{})
	})
	reg(P+"Unmarshal", func(e *Exec, a []Val) Val {
		m, t := msg(a[1])
		return e.protoUnmarshal(bytesOf(a[0]), m, t)
	})
	reg(P+"Clone", func(e *Exec, a []Val) Val {
		m, t := msg(a[0])
		if m.r == nil {
			return a[0]
		}
		return Val{r: &IfaceV{t: a[0].r.(*IfaceV).t, v: e.protoClone(m, t)}}
	})
	reg(P+"Reset", func(e *Exec, a []Val) Val {
		m, t := msg(a[0])
		e.store(e.ptr(m), zero(t))
		return Val{}
	})
	reg(P+"Merge", func(e *Exec, a []Val) Val {
		d, t := msg(a[0])
		s, _ := msg(a[1])
		e.protoMerge(d, s, t)
		return Val{}
	})
	reg(P+"Equal", func(e *Exec, a []Val) Val {
		m, t := msg(a[0])
		n, u := msg(a[1])
		if t == nil || u == nil {
			return boolVal(t == nil && u == nil)
		}
		if m.r == nil || n.r == nil {
			return boolVal(m.r == nil && n.r == nil)
		}
		return termVal(e.ctx.Eq(e.protoTerm(m, t), e.protoTerm(n, u)))
	})
	reg("encoding/json.Marshal", func(e *Exec, a []Val) Val {
		var out []Val
		if err := e.jsonEnc(&out, a[0], types.NewInterfaceType(nil, nil)); err != "" {
			return tuple(Val{}, e.mkErr(err))
		}
		return tuple(mkSlice(out), Val{})
	})
	reg("encoding/json.Unmarshal", func(e *Exec, a []Val) Val {
		iv, ok := a[1].r.(*IfaceV)
		if !ok || iv.v.r == nil {
			return e.mkErr("json: Unmarshal(nil)")
		}
		p, ok := iv.t.Underlying().(*types.Pointer)
		if !ok {
			return e.mkErr("json: Unmarshal(non-pointer)")
		}
		j, err := e.jsonParse(bytesOf(a[0]))
		if err != "" {
			return e.mkErr(err)
		}
		if err := e.jsonStore(j, e.ptr(iv.v), p.Elem()); err != "" {
			return e.mkErr(err)
		}
		return Val{}
	})
	intrinsics["encoding/json.Valid"] = plain(func(e *Exec, a []Val) Val {
		_, err := e.jsonParse(bytesOf(a[0]))
		return boolVal(err == "")
	})
	reg("(*encoding/base64.Encoding).EncodeToString", func(e *Exec, a []Val) Val {
		return mkStr(e.b64(bytesOf(a[1])))
	})
	reg("(*encoding/base64.Encoding).DecodeString", func(e *Exec, a []Val) Val {
		b, ok := e.unb64(strEl(a[1]))
		if !ok {
			return tuple(mkBytes(nil), e.mkErr("illegal base64 data"))
		}
		return tuple(b, Val{})
	})
}

// ---- protobuf

func protoFields(st *types.Struct) []int {
	var out []int
	for i := 0; i < st.NumFields(); i++ {
		if reflect.StructTag(st.Tag(i)).Get("protobuf") != "" {
			out = append(out, i)
		}
	}
	return out
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Exec) protoFieldTerm(v Val, t types.Type) *Term {
	c := e.ctx
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return c.ShaSeq(e.chunks(strEl(v)))
		case u.Info()&types.IsBoolean != 0:
			return e.boolTerm(v)
		case u.Info()&types.IsInteger != 0:
			return c.Resize(e.term(v, t), 64, isSigned(t))
		}
	case *types.Slice:
		if isBytes(t) {
			return c.ShaSeq(e.chunks(bytesOf(v)))
		}
		var as []*Term
		for _, x := range bytesOf(v) {
			as = append(as, e.protoFieldTerm(x, u.Elem()))
		}
		return c.Enc(fmt.Sprintf("list:%d", len(as)), as...)
	case *types.Pointer:
		if v.r == nil {
			return c.Enc("nilmsg")
		}
		return e.protoTerm(v, u.Elem().(*types.Named))
	}
	panic(unsupported{"proto field " + t.String()})
}

func (e *Exec) protoTerm(m Val, t *types.Named) *Term {
	st := t.Underlying().(*types.Struct)
	sv := e.ptr(m).r.(*StructV)
	var as []*Term
	for _, i := range protoFields(st) {
		as = append(as, e.protoFieldTerm(sv.f[i], st.Field(i).Type()))
	}
	return e.ctx.Enc("proto:"+t.String(), as...)
}

func protoDefault(v Val, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strLen(v) == 0
		}
		return v.r == nil && v.c == 0
	case *types.Slice:
		return v.r == nil || len(v.r.(*SliceV).a) == 0
	}
	return v.r == nil
}

func (e *Exec) protoMarshal(m Val, t *types.Named) Val {
	st := t.Underlying().(*types.Struct)
	sv := e.ptr(m).r.(*StructV)
	def := true
	for _, i := range protoFields(st) {
		if !protoDefault(sv.f[i], st.Field(i).Type()) {
			def = false
		}
	}
	if def {
		return mkSlice([]Val{})
	}
	tm := e.protoTerm(m, t)
	if e.blobs[tm] == nil {
		e.blobs[tm] = &blob{t: t, v: *e.ptr(e.protoClone(m, t))}
	}
	return mkSlice(append([]Val(nil), e.hBytes(tm)...))
}

func (e *Exec) protoCloneField(v Val, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := bytesOf(v)
		if len(s) == 0 {
			return Val{}
		}
		if isBytes(t) {
			return mkSlice(append([]Val(nil), s...))
		}
		out := make([]Val, len(s))
		for i, x := range s {
			if isBytes(u.Elem()) {
				out[i] = mkSlice(append([]Val{}, bytesOf(x)...))
				continue
			}
			if _, ok := u.Elem().Underlying().(*types.Pointer); ok && x.r == nil {
				// a nil element is encoded as an empty message
				p := new(Val)
				*p = zero(u.Elem().Underlying().(*types.Pointer).Elem())
				out[i] = Val{r: p}
				continue
			}
			out[i] = e.protoCloneField(x, u.Elem())
		}
		return mkSlice(out)
	case *types.Pointer:
		if v.r == nil {
			return Val{}
		}
		return e.protoClone(v, u.Elem().(*types.Named))
	}
	return copyVal(v)
}

func (e *Exec) protoClone(m Val, t *types.Named) Val {
	st := t.Underlying().(*types.Struct)
	sv := e.ptr(m).r.(*StructV)
	n := zero(t)
	for _, i := range protoFields(st) {
		n.r.(*StructV).f[i] = e.protoCloneField(sv.f[i], st.Field(i).Type())
	}
	p := new(Val)
	*p = n
	return Val{r: p}
}

func (e *Exec) protoMerge(d, s Val, t *types.Named) {
	if s.r == nil {
		return
	}
	st := t.Underlying().(*types.Struct)
	dv, sv := e.ptr(d).r.(*StructV), e.ptr(s).r.(*StructV)
	for _, i := range protoFields(st) {
		ft := st.Field(i).Type()
		if protoDefault(sv.f[i], ft) {
			continue
		}
		switch u := ft.Underlying().(type) {
		case *types.Slice:
			if !isBytes(ft) {
				c := e.protoCloneField(sv.f[i], ft)
				e.set(&dv.f[i], mkSlice(append(append([]Val{}, bytesOf(dv.f[i])...), bytesOf(c)...)))
				continue
			}
		case *types.Pointer:
			if dv.f[i].r != nil {
				e.protoMerge(dv.f[i], sv.f[i], u.Elem().(*types.Named))
				continue
			}
		}
		e.set(&dv.f[i], e.protoCloneField(sv.f[i], ft))
	}
}

func (e *Exec) protoUnmarshal(b []Val, m Val, t *types.Named) Val {
	p := e.ptr(m)
	if len(b) == 0 {
		e.store(p, zero(t))
		return Val{}
	}
	h := e.asH(b)
	if h == nil {
		if _, ok := concreteBytes(b); ok {
			return e.mkErr("proto: cannot parse invalid wire-format data")
		}
		panic(unsupported{"proto.Unmarshal of symbolic bytes"})
	}
	bl := e.blobs[h]
	if bl == nil {
		if h.op == OpHConst || h.op == OpSha {
			return e.mkErr("proto: cannot parse invalid wire-format data")
		}
		panic(unsupported{"proto.Unmarshal of an unknown value"})
	}
	if !types.Identical(bl.t, t) {
		panic(unsupported{"proto.Unmarshal of " + bl.t.String() + " as " + t.String()})
	}
	q := new(Val)
	*q = bl.v
	e.store(p, *e.ptr(e.protoClone(Val{r: q}, t)))
	return Val{}
}

// ---- JSON

type jval struct {
	k    byte // n null, t true, f false, d number, s string, a array, o object
	num  string
	s    []Val
	arr  []*jval
	keys []string
}

func (e *Exec) b64(el []Val) []Val {
	if s, ok := concreteBytes(el); ok {
		return strEl(strVal(base64.StdEncoding.EncodeToString([]byte(s))))
	}
	h := e.asH(el)
	if h == nil {
		return e.b64Quads(el)
	}
	out := make([]Val, 44)
	for i := range out {
		out[i] = termVal(e.ctx.B64Dig(h, i))
	}
	return out
}

func (e *Exec) unb64(el []Val) (Val, bool) {
	if s, ok := concreteBytes(el); ok {
		b, err := base64.StdEncoding.DecodeString(s)
		return mkBytes(b), err == nil
	}
	ks := e.chunks(el)
	if len(ks) == 1 && ks[0].b64 {
		return mkSlice(append([]Val(nil), e.hBytes(ks[0].t)...)), true
	}
	var out []Val
	for i := 0; i+4 <= len(el); i += 4 {
		q := e.quadKey(el[i : i+4])
		if b, ok := e.b64src[q]; ok {
			out = append(out, b...)
			continue
		}
		s, ok := concreteBytes(el[i : i+4])
		if !ok {
			panic(unsupported{"base64 decoding of symbolic text"})
		}
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil || len(b) < 3 && i+4 < len(el) {
			return Val{}, false
		}
		out = append(out, bytesOf(mkBytes(b))...)
	}
	if len(el)%4 != 0 {
		return Val{}, false
	}
	return mkSlice(out), true
}

func (e *Exec) quadKey(el []Val) (k [4]*Term) {
	for i, x := range el {
		k[i] = e.byteTerm(x)
	}
	return k
}

// b64Quads encodes three bytes at a time; the quads are remembered for decoding.
func (e *Exec) b64Quads(el []Val) []Val {
	if e.b64src == nil {
		e.b64src = map[[4]*Term][]Val{}
	}
	c := e.ctx
	var out []Val
	for i := 0; i < len(el); i += 3 {
		n := len(el) - i
		if n > 3 {
			n = 3
		}
		g := el[i : i+n]
		if s, ok := concreteBytes(g); ok {
			out = append(out, strEl(strVal(base64.StdEncoding.EncodeToString([]byte(s))))...)
			continue
		}
		var b [3]*Term
		for j := range b {
			if j < n {
				b[j] = e.byteTerm(g[j])
			} else {
				b[j] = c.BV(8, 0)
			}
		}
		six := func(hi *Term, hm, hs uint64, lo *Term, ls uint64) *Term {
			x := c.Bin(OpShl, c.Bin(OpBand, hi, c.BV(8, hm)), c.BV(8, hs))
			if lo != nil {
				x = c.Bin(OpBor, x, c.Bin(OpLshr, lo, c.BV(8, ls)))
			}
			return x
		}
		q := []Val{
			termVal(c.B64Six(six(c.BV(8, 0), 0, 0, b[0], 2))),
			termVal(c.B64Six(six(b[0], 3, 4, b[1], 4))),
			{c: '='}, {c: '='},
		}
		if n > 1 {
			q[2] = termVal(c.B64Six(six(b[1], 15, 2, b[2], 6)))
		}
		if n > 2 {
			q[3] = termVal(c.B64Six(six(b[2], 63, 0, nil, 0)))
		}
		e.b64src[e.quadKey(q)] = append([]Val(nil), g...)
		out = append(out, q...)
	}
	return out
}

type jfield struct {
	name      string
	omit      bool
	i         int
	t         types.Type
	stringOpt bool
}

func jsonFields(st *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		ps := strings.Split(tag, ",")
		n := ps[0]
		if n == "" {
			n = f.Name()
		}
		jf := jfield{name: n, i: i, t: f.Type()}
		for _, o := range ps[1:] {
			if o == "omitempty" {
				jf.omit = true
			}
			if o == "string" {
				jf.stringOpt = true
			}
		}
		out = append(out, jf)
	}
	return out
}

func lit(s string) []Val { return strEl(strVal(s)) }

func (e *Exec) jsonStr(out *[]Val, el []Val) {
	if s, ok := concreteBytes(el); ok {
		b, _ := json.Marshal(s)
		*out = append(*out, lit(string(b))...)
		return
	}
	*out = append(*out, Val{c: '"'})
	for _, x := range el {
		t := x.sym()
		if t == nil {
			b, _ := json.Marshal(string([]byte{byte(x.c)}))
			*out = append(*out, lit(string(b[1:len(b)-1]))...)
			continue
		}
		e.needSafe(t)
		*out = append(*out, x)
	}
	*out = append(*out, Val{c: '"'})
}

// needSafe makes sure that a symbolic character needs no JSON escape.
func (e *Exec) needSafe(t *Term) {
	if t.op == OpB64Dig || t.op == OpB64Six || t.op == OpHexDig {
		return
	}
	c := e.ctx
	bad := []*Term{c.Cmp(OpUlt, t, c.BV(8, 0x20)), c.Cmp(OpUlt, c.BV(8, 0x7e), t)}
	for _, x := range `"\<>&` {
		bad = append(bad, c.Eq(t, c.BV(8, uint64(x))))
	}
	if e.branch(c.Or(bad...)) {
		panic(unsupported{"JSON escape of a symbolic character"})
	}
}

func (e *Exec) jsonEnc(out *[]Val, v Val, t types.Type) string {
	add := func(s string) { *out = append(*out, lit(s)...) }
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if v.r == nil {
			add("null")
			return ""
		}
		iv := v.r.(*IfaceV)
		if f := e.methodOf(iv.t, "MarshalJSON"); f != nil {
			panic(unsupported{"MarshalJSON of " + iv.t.String()})
		}
		return e.jsonEnc(out, iv.v, iv.t)
	case *types.Pointer:
		if v.r == nil {
			add("null")
			return ""
		}
		return e.jsonEnc(out, *e.ptr(v), u.Elem())
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			e.jsonStr(out, strEl(v))
			return ""
		case u.Info()&types.IsBoolean != 0:
			b := v.c != 0
			if s := v.sym(); s != nil {
				b = e.branch(s)
			}
			add(strconv.FormatBool(b))
			return ""
		case u.Info()&types.IsInteger != 0:
			if s := v.sym(); s != nil {
				v = Val{c: e.concretize(s, 64)}
			}
			if isSigned(t) {
				add(strconv.FormatInt(sext(v.c, widthOf(t)), 10))
			} else {
				add(strconv.FormatUint(v.c, 10))
			}
			return ""
		case u.Kind() == types.Float64:
			b, err := json.Marshal(math.Float64frombits(v.c))
			if err != nil {
				return err.Error()
			}
			add(string(b))
			return ""
		}
	case *types.Slice:
		if v.r == nil {
			add("null")
			return ""
		}
		if isBytes(t) {
			add(`"`)
			*out = append(*out, e.b64(bytesOf(v))...)
			add(`"`)
			return ""
		}
		add("[")
		for i, x := range bytesOf(v) {
			if i > 0 {
				add(",")
			}
			if err := e.jsonEnc(out, x, u.Elem()); err != "" {
				return err
			}
		}
		add("]")
		return ""
	case *types.Array:
		add("[")
		for i, x := range v.r.(*ArrV).a {
			if i > 0 {
				add(",")
			}
			if err := e.jsonEnc(out, x, u.Elem()); err != "" {
				return err
			}
		}
		add("]")
		return ""
	case *types.Map:
		if v.r == nil {
			add("null")
			return ""
		}
		m := v.r.(*MapV)
		type kv struct {
			k string
			v Val
		}
		var kvs []kv
		for i := range m.keys {
			if m.live[i] {
				k, ok := m.keys[i].r.(string)
				if !ok {
					panic(unsupported{"JSON of a map with symbolic keys"})
				}
				kvs = append(kvs, kv{k, m.vals[i]})
			}
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		add("{")
		for i, x := range kvs {
			if i > 0 {
				add(",")
			}
			e.jsonStr(out, lit(x.k))
			add(":")
			if err := e.jsonEnc(out, x.v, u.Elem()); err != "" {
				return err
			}
		}
		add("}")
		return ""
	case *types.Struct:
		add("{")
		first := true
		for _, f := range jsonFields(u) {
			x := v.r.(*StructV).f[f.i]
			if f.omit && e.jsonEmpty(x, f.t) {
				continue
			}
			if !first {
				add(",")
			}
			first = false
			e.jsonStr(out, lit(f.name))
			add(":")
			if err := e.jsonEnc(out, x, f.t); err != "" {
				return err
			}
		}
		add("}")
		return ""
	case *types.Chan, *types.Signature:
		return "json: unsupported type"
	}
	panic(unsupported{"json.Marshal of " + t.String()})
}

func (e *Exec) jsonEmpty(v Val, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strLen(v) == 0
		}
		if s := v.sym(); s != nil {
			if s.s.k == SBool {
				return !e.branch(s)
			}
			return e.branch(e.ctx.Eq(s, e.ctx.BV(s.s.w, 0)))
		}
		return v.c == 0
	case *types.Slice:
		return len(bytesOf(v)) == 0
	case *types.Map:
		return v.r == nil || v.r.(*MapV).n == 0
	case *types.Struct:
		return false
	case *types.Array:
		return u.Len() == 0
	}
	return v.r == nil
}

type jparser struct {
	e   *Exec
	b   []Val
	pos int
}

type jsonErr struct{ msg string }

func (e *Exec) jsonParse(b []Val) (j *jval, err string) {
	if s, ok := concreteBytes(b); ok {
		if !json.Valid([]byte(s)) {
			return nil, "invalid character in JSON"
		}
	}
	p := &jparser{e: e, b: b}
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				j, err = nil, je.msg
				return
			}
			panic(r)
		}
	}()
	j = p.value()
	p.ws()
	if p.pos < len(p.b) {
		return nil, "invalid character after top-level value"
	}
	return j, ""
}

func (p *jparser) peek() byte {
	if p.pos >= len(p.b) {
		panic(jsonErr{"unexpected end of JSON input"})
	}
	v := p.b[p.pos]
	if t := v.sym(); t != nil {
		if t.op == OpB64Dig || t.op == OpHexDig {
			// a digit or letter in a structural position
			panic(unsupported{"symbolic JSON structure"})
		}
		panic(unsupported{"symbolic JSON structure"})
	}
	return byte(v.c)
}

func (p *jparser) ws() {
	for p.pos < len(p.b) && p.b[p.pos].r == nil && strings.IndexByte(" \t\r\n", byte(p.b[p.pos].c)) >= 0 {
		p.pos++
	}
}

func (p *jparser) expect(s string) {
	for i := 0; i < len(s); i++ {
		if p.peek() != s[i] {
			panic(jsonErr{"invalid character"})
		}
		p.pos++
	}
}

func (p *jparser) value() *jval {
	p.ws()
	switch c := p.peek(); {
	case c == 'n':
		p.expect("null")
		return &jval{k: 'n'}
	case c == 't':
		p.expect("true")
		return &jval{k: 't'}
	case c == 'f':
		p.expect("false")
		return &jval{k: 'f'}
	case c == '"':
		return &jval{k: 's', s: p.str()}
	case c == '[':
		p.pos++
		j := &jval{k: 'a'}
		p.ws()
		if p.peek() == ']' {
			p.pos++
			return j
		}
		for {
			j.arr = append(j.arr, p.value())
			p.ws()
			if p.peek() == ',' {
				p.pos++
				continue
			}
			p.expect("]")
			return j
		}
	case c == '{':
		p.pos++
		j := &jval{k: 'o'}
		p.ws()
		if p.peek() == '}' {
			p.pos++
			return j
		}
		for {
			p.ws()
			if p.peek() != '"' {
				panic(jsonErr{"invalid character looking for object key"})
			}
			k, ok := concreteBytes(p.str())
			if !ok {
				panic(unsupported{"symbolic JSON key"})
			}
			p.ws()
			p.expect(":")
			j.keys = append(j.keys, k)
			j.arr = append(j.arr, p.value())
			p.ws()
			if p.peek() == ',' {
				p.pos++
				continue
			}
			p.expect("}")
			return j
		}
	default:
		st := p.pos
		for p.pos < len(p.b) && p.b[p.pos].r == nil && strings.IndexByte("+-0123456789.eE", byte(p.b[p.pos].c)) >= 0 {
			p.pos++
		}
		s, _ := concreteBytes(p.b[st:p.pos])
		if !json.Valid([]byte(s)) {
			panic(jsonErr{"invalid number"})
		}
		return &jval{k: 'd', num: s}
	}
}

func (p *jparser) str() []Val {
	p.expect(`"`)
	out := []Val{}
	for {
		if p.pos >= len(p.b) {
			panic(jsonErr{"unexpected end of JSON input"})
		}
		v := p.b[p.pos]
		if t := v.sym(); t != nil {
			p.e.needSafe(t)
			out = append(out, v)
			p.pos++
			continue
		}
		c := byte(v.c)
		switch {
		case c == '"':
			p.pos++
			return out
		case c == '\\':
			n := 2
			if p.pos+1 < len(p.b) && p.b[p.pos+1].r == nil && p.b[p.pos+1].c == 'u' {
				n = 6
				// surrogate pair
				if p.pos+12 <= len(p.b) {
					if s, ok := concreteBytes(p.b[p.pos : p.pos+12]); ok && s[6] == '\\' && s[7] == 'u' && (s[2] == 'd' || s[2] == 'D') {
						n = 12
					}
				}
			}
			if p.pos+n > len(p.b) {
				panic(jsonErr{"unexpected end of JSON input"})
			}
			s, ok := concreteBytes(p.b[p.pos : p.pos+n])
			if !ok {
				panic(unsupported{"symbolic JSON escape"})
			}
			var r string
			if err := json.Unmarshal([]byte(`"`+s+`"`), &r); err != nil {
				panic(jsonErr{err.Error()})
			}
			out = append(out, lit(r)...)
			p.pos += n
		case c < 0x20:
			panic(jsonErr{"invalid character in string literal"})
		case c < 0x80:
			out = append(out, v)
			p.pos++
		default:
			// UTF-8 sequence
			n := 1
			var buf []byte
			for i := p.pos; i < len(p.b) && i < p.pos+4 && p.b[i].r == nil; i++ {
				buf = append(buf, byte(p.b[i].c))
			}
			r, sz := utf8.DecodeRune(buf)
			n = sz
			out = append(out, lit(string(r))...)
			p.pos += n
		}
	}
}

var (
	emptyIface  = types.NewInterfaceType(nil, nil)
	jsonMapType = types.NewMap(types.Typ[types.String], emptyIface)
	jsonArrType = types.NewSlice(emptyIface)
)

func (e *Exec) jsonAny(j *jval) Val {
	mk := func(t types.Type, v Val) Val { return Val{r: &IfaceV{t: t, v: v}} }
	switch j.k {
	case 'n':
		return Val{}
	case 't', 'f':
		return mk(types.Typ[types.Bool], boolVal(j.k == 't'))
	case 'd':
		f, err := strconv.ParseFloat(j.num, 64)
		if err != nil {
			panic(jsonErr{"json: cannot unmarshal number"})
		}
		return mk(types.Typ[types.Float64], Val{c: math.Float64bits(f)})
	case 's':
		return mk(types.Typ[types.String], mkStr(j.s))
	case 'a':
		a := make([]Val, len(j.arr))
		for i, x := range j.arr {
			a[i] = e.jsonAny(x)
		}
		return mk(jsonArrType, mkSlice(a))
	}
	m := newMap(types.Typ[types.String])
	for i, k := range j.keys {
		e.mapSet(m, strVal(k), e.jsonAny(j.arr[i]))
	}
	return mk(jsonMapType, Val{r: m})
}

func (e *Exec) jsonStore(j *jval, p *Val, t types.Type) string {
	bad := func() string { return "json: cannot unmarshal into Go value of type " + t.String() }
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			if j.k == 'n' {
				e.set(p, Val{})
				return ""
			}
			return bad()
		}
		var err string
		func() {
			defer func() {
				if r := recover(); r != nil {
					if je, ok := r.(jsonErr); ok {
						err = je.msg
						return
					}
					panic(r)
				}
			}()
			e.set(p, e.jsonAny(j))
		}()
		return err
	case *types.Pointer:
		if j.k == 'n' {
			e.set(p, Val{})
			return ""
		}
		if p.r == nil {
			q := new(Val)
			*q = zero(u.Elem())
			e.set(p, Val{r: q})
		}
		return e.jsonStore(j, e.ptr(*p), u.Elem())
	case *types.Basic:
		if j.k == 'n' {
			return ""
		}
		switch {
		case u.Info()&types.IsString != 0:
			if j.k != 's' {
				return bad()
			}
			e.set(p, mkStr(j.s))
			return ""
		case u.Info()&types.IsBoolean != 0:
			if j.k != 't' && j.k != 'f' {
				return bad()
			}
			e.set(p, boolVal(j.k == 't'))
			return ""
		case u.Info()&types.IsInteger != 0:
			if j.k != 'd' {
				return bad()
			}
			w := widthOf(t)
			if isSigned(t) {
				i, err := strconv.ParseInt(j.num, 10, int(w))
				if err != nil {
					return bad()
				}
				e.set(p, Val{c: uint64(i) & mask(w)})
				return ""
			}
			i, err := strconv.ParseUint(j.num, 10, int(w))
			if err != nil {
				return bad()
			}
			e.set(p, Val{c: i})
			return ""
		case u.Kind() == types.Float64:
			if j.k != 'd' {
				return bad()
			}
			f, err := strconv.ParseFloat(j.num, 64)
			if err != nil {
				return bad()
			}
			e.set(p, Val{c: math.Float64bits(f)})
			return ""
		}
	case *types.Slice:
		if j.k == 'n' {
			e.set(p, Val{})
			return ""
		}
		if isBytes(t) && j.k == 's' {
			b, ok := e.unb64(j.s)
			if !ok {
				return "illegal base64 data"
			}
			e.set(p, b)
			return ""
		}
		if j.k != 'a' {
			return bad()
		}
		a := make([]Val, len(j.arr))
		for i, x := range j.arr {
			a[i] = zero(u.Elem())
			if err := e.jsonStore(x, &a[i], u.Elem()); err != "" {
				return err
			}
		}
		e.set(p, mkSlice(a))
		return ""
	case *types.Map:
		if j.k == 'n' {
			e.set(p, Val{})
			return ""
		}
		if j.k != 'o' {
			return bad()
		}
		if p.r == nil {
			e.set(p, Val{r: newMap(u.Key())})
		}
		for i, k := range j.keys {
			q := zero(u.Elem())
			if err := e.jsonStore(j.arr[i], &q, u.Elem()); err != "" {
				return err
			}
			e.mapSet(p.r.(*MapV), strVal(k), q)
		}
		return ""
	case *types.Struct:
		if j.k == 'n' {
			return ""
		}
		if j.k != 'o' {
			return bad()
		}
		fs := jsonFields(u)
		for i, k := range j.keys {
			var hit *jfield
			for n := range fs {
				if fs[n].name == k {
					hit = &fs[n]
				}
			}
			if hit == nil {
				for n := range fs {
					if hit == nil && strings.EqualFold(fs[n].name, k) {
						hit = &fs[n]
					}
				}
			}
			if hit == nil {
				continue
			}
			if err := e.jsonStore(j.arr[i], &p.r.(*StructV).f[hit.i], hit.t); err != "" {
				return err
			}
		}
		return ""
	}
	panic(unsupported{"json.Unmarshal into " + t.String()})
}
