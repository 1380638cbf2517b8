package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

func (c *Ctx) concreteSha(s string) string {
	d := sha256.Sum256([]byte(s))
	k := string(d[:])
	c.digests[k] = s
	return k
}

// SatResult of a query.
type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Stats are shared counters.
type Stats struct {
	Queries, SatN, UnsatN, UnknownN int64
	SolverNs                        int64
	Errors                          int64
}

var stats Stats

// Solver wraps one z3 process.
type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool    // term ids with a global definition
	funs    map[string]bool // declared functions
	tags    map[string]int
	scopes  []*scope
	timeout int
	log     *os.File
	nq      int
	dead    bool
}

type scope struct {
	ax    map[*Term]bool
	shas  map[int][]*Term // total length -> terms
	terms []*Term         // H terms in scope
	seen  map[*Term]bool  // terms whose H subterms have been axiomatised
}

func newScope() *scope {
	return &scope{ax: map[*Term]bool{}, shas: map[int][]*Term{}, seen: map[*Term]bool{}}
}

func newSolver(ctx *Ctx, bin string, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, timeout: timeoutMs}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		s.log, _ = os.Create(fmt.Sprintf("%s.%p.smt2", p, s))
	}
	s.start(bin)
	return s
}

func (s *Solver) start(bin string) {
	s.cmd = exec.Command(bin, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.inC = w
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int]bool{}
	s.funs = map[string]bool{}
	s.tags = map[string]int{}
	s.scopes = []*scope{newScope()}
	s.nq = 0
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :timeout " + strconv.Itoa(s.timeout) + ")")
	s.send("(set-option :smt.random_seed 1)")
	s.send("(declare-sort H 0)")
	s.send("(declare-fun htag (H) (_ BitVec 24))")
	s.send("(declare-fun hcid (H) (_ BitVec 24))")
	s.send("(declare-fun hbits (H) (_ BitVec 256))")
	s.send("(declare-fun hinv ((_ BitVec 256)) H)")
}

// Close ends the process.
func (s *Solver) Close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.log != nil {
		s.log.WriteString(l + "\n")
	}
}

// Push opens a scope.
func (s *Solver) Push() {
	s.send("(push 1)")
	s.scopes = append(s.scopes, newScope())
}

// Pop closes it.
func (s *Solver) Pop() {
	s.send("(pop 1)")
	s.scopes = s.scopes[:len(s.scopes)-1]
}

func sortStr(t Sort) string {
	switch t.k {
	case SBool:
		return "Bool"
	case SH:
		return "H"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (s *Solver) tag(k string) int {
	v, ok := s.tags[k]
	if !ok {
		v = len(s.tags) + 1
		s.tags[k] = v
	}
	return v
}

func smtName(p string, id int) string { return p + strconv.Itoa(id) }

func bvLit(w uint8, v uint64) string { return fmt.Sprintf("(_ bv%d %d)", v, w) }

// ref emits definitions as needed and returns the reference to a term.
func (s *Solver) ref(t *Term) string {
	if t.op == OpConst {
		if t.s.k == SBool {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		return bvLit(t.s.w, t.c)
	}
	name := smtName("t", t.id)
	if s.defined[t.id] {
		return name
	}
	// iterative post-order to avoid deep recursion on hash chains is not needed: depth is bounded by ~1e4
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = s.ref(a)
	}
	s.defined[t.id] = true
	var e string
	bin := func(op string) string { return "(" + op + " " + strings.Join(as, " ") + ")" }
	switch t.op {
	case OpVar:
		s.send("(declare-const " + name + " " + sortStr(t.s) + ")")
		return name
	case OpHConst:
		s.send("(declare-const " + name + " H)")
		return name
	case OpNot:
		e = bin("not")
	case OpAnd:
		e = bin("and")
	case OpOr:
		e = bin("or")
	case OpIte:
		e = bin("ite")
	case OpEq:
		e = bin("=")
	case OpUlt:
		e = bin("bvult")
	case OpUle:
		e = bin("bvule")
	case OpSlt:
		e = bin("bvslt")
	case OpSle:
		e = bin("bvsle")
	case OpAdd:
		e = bin("bvadd")
	case OpSub:
		e = bin("bvsub")
	case OpMul:
		e = bin("bvmul")
	case OpUdiv:
		e = bin("bvudiv")
	case OpSdiv:
		e = bin("bvsdiv")
	case OpUrem:
		e = bin("bvurem")
	case OpSrem:
		e = bin("bvsrem")
	case OpBand:
		e = bin("bvand")
	case OpBor:
		e = bin("bvor")
	case OpBxor:
		e = bin("bvxor")
	case OpShl:
		e = bin("bvshl")
	case OpLshr:
		e = bin("bvlshr")
	case OpAshr:
		e = bin("bvashr")
	case OpExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.c>>8, t.c&0xff, as[0])
	case OpConcat:
		e = bin("concat")
	case OpZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.s.w-t.args[0].s.w, as[0])
	case OpSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.s.w-t.args[0].s.w, as[0])
	case OpHByte:
		e = fmt.Sprintf("((_ extract %d %d) (hbits %s))", 255-8*t.c, 248-8*t.c, as[0])
	case OpHexDig:
		n := fmt.Sprintf("(bvand %s #x0f)", as[0])
		if t.c == 1 {
			n = fmt.Sprintf("(bvlshr %s #x04)", as[0])
		}
		e = fmt.Sprintf("(ite (bvult %s #x0a) (bvadd %s #x30) (bvadd %s #x57))", n, n, n)
	case OpB64Six:
		e = fmt.Sprintf("(let ((v %s)) (ite (bvult v #x1a) (bvadd v #x41) (ite (bvult v #x34) (bvadd v #x47) (ite (bvult v #x3e) (bvsub v #x04) (ite (= v #x3e) #x2b #x2f)))))", as[0])
	case OpB64Dig:
		n := fmt.Sprintf("((_ extract %d %d) (concat (hbits %s) #b00))", 257-6*t.c, 252-6*t.c, as[0])
		n = "(concat #b00 " + n + ")"
		e = fmt.Sprintf("(let ((v %s)) (ite (bvult v #x1a) (bvadd v #x41) (ite (bvult v #x34) (bvadd v #x47) (ite (bvult v #x3e) (bvsub v #x04) (ite (= v #x3e) #x2b #x2f)))))", n)
	case OpSha, OpEnc, OpFun:
		f := s.fun(t)
		if len(as) == 0 {
			e = f
		} else {
			e = "(" + f + " " + strings.Join(as, " ") + ")"
		}
	default:
		panic("smt: op")
	}
	s.send("(define-fun " + name + " () " + sortStr(t.s) + " " + e + ")")
	return name
}

func (s *Solver) fun(t *Term) string {
	var sorts []string
	for _, a := range t.args {
		sorts = append(sorts, sortStr(a.s))
	}
	key := fmt.Sprintf("%d|%s|%s|%s", t.op, t.name, strings.Join(sorts, ","), sortStr(t.s))
	n := fmt.Sprintf("f%d", s.tag("fun:"+key))
	if !s.funs[n] {
		s.funs[n] = true
		s.send("(declare-fun " + n + " (" + strings.Join(sorts, " ") + ") " + sortStr(t.s) + ")")
		if t.op != OpFun {
			for i, so := range sorts {
				s.send(fmt.Sprintf("(declare-fun inv_%s_%d (H) %s)", n, i, so))
			}
		}
	}
	return n
}

func (s *Solver) inScope(f func(sc *scope) bool) bool {
	for i := len(s.scopes) - 1; i >= 0; i-- {
		if f(s.scopes[i]) {
			return true
		}
	}
	return false
}

// axioms asserts the ground axioms for all H terms reachable from t.
func (s *Solver) axioms(t *Term) {
	if t.op == OpConst {
		return
	}
	if s.inScope(func(sc *scope) bool { return sc.seen[t] }) {
		return
	}
	top := s.scopes[len(s.scopes)-1]
	top.seen[t] = true
	for _, a := range t.args {
		s.axioms(a)
	}
	if t.op == OpHByte || t.op == OpB64Dig {
		h := t.args[0]
		s.send(fmt.Sprintf("(assert (= (hinv (hbits %s)) %s))", s.ref(h), s.ref(h)))
	}
	if t.s.k != SH {
		return
	}
	top.terms = append(top.terms, t)
	r := s.ref(t)
	switch t.op {
	case OpHConst:
		s.send(fmt.Sprintf("(assert (= (hcid %s) (_ bv%d 24)))", r, s.tag("cid:"+t.name)))
		s.send(fmt.Sprintf("(assert (= (hinv (hbits %s)) %s))", r, r))
		s.send(fmt.Sprintf("(assert (= (hbits %s) #x%x))", r, t.name))
		if p, ok := s.ctx.digests[t.name]; ok {
			s.send(fmt.Sprintf("(assert (= (htag %s) (_ bv%d 24)))", r, s.tag("len:"+strconv.Itoa(len(p)))))
			if len(p) == 65 && p[0] == 1 {
				l, rr := s.ctx.HConst(p[1:33]), s.ctx.HConst(p[33:])
				x := &Term{op: OpSha, s: sortH, name: nodeShape, args: []*Term{l, rr}} // only for the function name
				f := s.fun(x)
				s.axioms(l)
				s.axioms(rr)
				s.send(fmt.Sprintf("(assert (= %s (%s %s %s)))", r, f, s.ref(l), s.ref(rr)))
				s.send(fmt.Sprintf("(assert (= (inv_%s_0 %s) %s))", f, r, s.ref(l)))
				s.send(fmt.Sprintf("(assert (= (inv_%s_1 %s) %s))", f, r, s.ref(rr)))
			}
			s.pairs(t, len(p), r)
		} else {
			s.send(fmt.Sprintf("(assert (= (htag %s) (_ bv%d 24)))", r, s.tag("const:"+t.name)))
		}
	case OpSha, OpEnc:
		f := s.fun(t)
		for i, a := range t.args {
			s.send(fmt.Sprintf("(assert (= (inv_%s_%d %s) %s))", f, i, r, s.ref(a)))
		}
		if t.op == OpEnc {
			s.send(fmt.Sprintf("(assert (= (htag %s) (_ bv%d 24)))", r, s.tag("enc:"+f)))
			break
		}
		s.send(fmt.Sprintf("(assert (= (htag %s) (_ bv%d 24)))", r, s.tag("len:"+strconv.Itoa(t.total))))
		s.pairs(t, t.total, r)
	}
}

const nodeShape = "c01;H;H;"

func shapeName(t *Term) string {
	if t.op == OpHConst {
		return "const"
	}
	return t.name
}

// pairs relates digests of equally long inputs of different shapes.
func (s *Solver) pairs(t *Term, total int, r string) {
	seq := func(x *Term) []chunk {
		if x.op == OpHConst {
			return s.ctx.constSeq(s.ctx.digests[x.name])
		}
		return s.ctx.shaInput(x)
	}
	node := func(x *Term) bool {
		if x.op == OpHConst {
			p := s.ctx.digests[x.name]
			return len(p) == 65 && p[0] == 1
		}
		return x.name == nodeShape
	}
	s.inScope(func(sc *scope) bool {
		for _, u := range sc.shas[total] {
			if shapeName(u) == shapeName(t) || node(u) && node(t) {
				continue
			}
			e := s.ctx.eqSeq(seq(t), seq(u))
			s.axioms(e)
			s.send(fmt.Sprintf("(assert (= (= %s %s) %s))", r, s.ref(u), s.ref(e)))
		}
		return false
	})
	top := s.scopes[len(s.scopes)-1]
	top.shas[total] = append(top.shas[total], t)
}

// Assert adds a formula to the current scope.
func (s *Solver) Assert(t *Term) {
	s.axioms(t)
	r := s.ref(t)
	s.send("(assert " + r + ")")
}

// Check runs check-sat in the current scope.
func (s *Solver) Check() SatResult {
	t0 := time.Now()
	s.send("(check-sat)")
	s.in.Flush()
	res := Unknown
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			atomic.AddInt64(&stats.Errors, 1)
			break
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			atomic.AddInt64(&stats.Errors, 1)
			fmt.Fprintln(os.Stderr, "solver:", l)
			s.dead = true
			continue
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		case "unknown", "timeout":
			res = Unknown
		default:
			continue
		}
		break
	}
	if s.dead {
		res = Unknown
	}
	atomic.AddInt64(&stats.SolverNs, int64(time.Since(t0)))
	atomic.AddInt64(&stats.Queries, 1)
	switch res {
	case Sat:
		atomic.AddInt64(&stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&stats.UnsatN, 1)
	default:
		atomic.AddInt64(&stats.UnknownN, 1)
	}
	s.nq++
	return res
}

// CheckWith checks the current scope plus extra formulas.
func (s *Solver) CheckWith(ts ...*Term) SatResult {
	s.Push()
	for _, t := range ts {
		s.Assert(t)
	}
	r := s.Check()
	s.Pop()
	return r
}

// Values gets the model value strings of terms, right after a sat Check.
func (s *Solver) Values(ts []*Term) ([]string, error) {
	out := make([]string, len(ts))
	for i, t := range ts {
		s.send("(get-value (" + s.ref(t) + "))")
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil {
			return nil, err
		}
		// ((name value))
		txt = strings.TrimSpace(txt)
		if strings.HasPrefix(txt, "(error") {
			return nil, fmt.Errorf("%s", txt)
		}
		txt = strings.TrimSuffix(strings.TrimPrefix(txt, "(("), "))")
		// skip the first token (could be a constant like true or (_ bv1 2))
		j := 0
		if txt[0] == '(' {
			d := 0
			for ; j < len(txt); j++ {
				if txt[j] == '(' {
					d++
				}
				if txt[j] == ')' {
					d--
					if d == 0 {
						j++
						break
					}
				}
			}
		} else {
			for j < len(txt) && txt[j] != ' ' && txt[j] != '\n' {
				j++
			}
		}
		out[i] = strings.TrimSpace(txt[j:])
	}
	return out, nil
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	d := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return "", err
		}
		if !started && (b == '\n' || b == ' ') {
			continue
		}
		sb.WriteByte(b)
		if b == '(' {
			d++
			started = true
		}
		if b == ')' {
			d--
			if d == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseBV(v string) (uint64, bool) {
	switch {
	case v == "true":
		return 1, true
	case v == "false":
		return 0, true
	case strings.HasPrefix(v, "#x"):
		u, err := strconv.ParseUint(v[2:], 16, 64)
		return u, err == nil
	case strings.HasPrefix(v, "#b"):
		u, err := strconv.ParseUint(v[2:], 2, 64)
		return u, err == nil
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v[5:])
		u, err := strconv.ParseUint(f[0], 10, 64)
		return u, err == nil
	}
	return 0, false
}

// scopeHTerms lists all H terms axiomatised in the current scopes.
func (s *Solver) scopeHTerms() []*Term {
	var out []*Term
	for _, sc := range s.scopes {
		out = append(out, sc.terms...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
