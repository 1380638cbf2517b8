// Package hfault holds harnesses for failing and interrupted storage.
package hfault

import (
	"bytes"
	"context"
	"errors"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

var errDisk = errors.New("disk failure")

// store keeps updates only when they succeed, and fails at one chosen step.
type store struct {
	data map[string]map[string][]byte
	left int // steps before the failure, negative: none
	hit  bool
}

func (s *store) step() error {
	s.left--
	if s.left == -1 {
		s.hit = true
		return errDisk
	}
	return nil
}

type tx struct {
	s   *store
	old map[string][]byte
	new map[string][]byte
}

func (t *tx) Get(ctx context.Context, key []byte, value proto.Message) error {
	if err := t.s.step(); err != nil {
		return err
	}
	b, ok := t.new[string(key)]
	if !ok {
		b, ok = t.old[string(key)]
	}
	if !ok {
		return verifiable.ErrNoSuchKey
	}
	return proto.Unmarshal(b, value)
}

func (t *tx) Set(ctx context.Context, key []byte, value proto.Message) error {
	if err := t.s.step(); err != nil {
		return err
	}
	b, err := proto.Marshal(value)
	if err != nil {
		return err
	}
	t.new[string(key)] = b
	return nil
}

func (s *store) ExecuteReadOnly(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
	if err := s.step(); err != nil {
		return err
	}
	return f(ctx, &tx{s: s, old: s.data[string(ns)]})
}

func (s *store) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	if err := s.step(); err != nil {
		return err
	}
	t := &tx{s: s, old: s.data[string(ns)], new: map[string][]byte{}}
	if err := f(ctx, t); err != nil {
		return err
	}
	if err := s.step(); err != nil { // commit
		return err
	}
	n := map[string][]byte{}
	for k, v := range t.old {
		n[k] = v
	}
	for k, v := range t.new {
		n[k] = v
	}
	s.data[string(ns)] = n
	return nil
}

func newStore() (*store, *verifiable.Account) {
	s := &store{data: map[string]map[string][]byte{}, left: -1}
	return s, henv.Over(s, &instant.Mutator{Writer: s}).Account("acct", "key")
}

// LogAdd: an addition that fails at any step of its storage is reported and
// leaves no trace; done again it is as if done once.
func LogAdd() {
	s, acc := newStore()
	l := acc.VerifiableLog("log")
	n := symrt.Choose("n", int(symrt.Param("n", 4))+1)
	var in, hs [][]byte
	for i := 0; i <= n; i++ {
		v := []byte{byte(i)}
		if i == n {
			v = symrt.Bytes("v", 1) // one of the others or not
		}
		in = append(in, v)
		if i < n {
			_, err := l.Add(henv.Ctx, &pb.LeafData{LeafInput: v})
			bad(err, "add")
			hs = append(hs, ref.Leaf(v))
		}
	}
	dup := false
	for _, h := range hs {
		if bytes.Equal(h, ref.Leaf(in[n])) {
			dup = true
			break
		}
	}
	max := int(symrt.Param("steps", 40))
	s.left = symrt.Choose("at", max)
	if s.left == max-1 {
		s.left = 1 << 30 // no failure
	}
	_, err := l.Add(henv.Ctx, &pb.LeafData{LeafInput: in[n]})
	s.left = -1
	symrt.Assert(s.hit || err == nil, "an addition fails although the storage does not")
	if err != nil {
		symrt.Reach("failed")
		logIs(l, hs)
		_, err = l.Add(henv.Ctx, &pb.LeafData{LeafInput: in[n]})
		bad(err, "add after a failure")
	}
	if !dup {
		hs = append(hs, ref.Leaf(in[n]))
	}
	logIs(l, hs)
	symrt.Reach("checked")
}

func logIs(l *verifiable.Log, hs [][]byte) {
	h, err := l.TreeHead(henv.Ctx, verifiable.Head)
	bad(err, "head")
	symrt.Assert(h.TreeSize == int64(len(hs)), "the size of the log")
	if len(hs) == 0 {
		return
	}
	symrt.Assert(bytes.Equal(h.RootHash, ref.MTH(hs)), "the root of the log")
	for i, x := range hs {
		p, err := l.InclusionProof(henv.Ctx, h.TreeSize, x)
		bad(err, "inclusion proof")
		symrt.Assert(p.LeafIndex == int64(i), "the index of an entry")
	}
	i := 0
	for e := range l.Entries(henv.Ctx, 0, h.TreeSize) {
		symrt.Assert(bytes.Equal(ref.Leaf(e.LeafInput), hs[i]), "the entries of the log")
		i++
	}
	symrt.Assert(i == len(hs), "the number of entries")
}

// LogRead: a read that meets a failure reports it and gives nothing.
func LogRead() {
	s, acc := newStore()
	l := acc.VerifiableLog("log")
	n := int64(symrt.Param("n", 5))
	for i := int64(0); i < n; i++ {
		_, err := l.Add(henv.Ctx, &pb.LeafData{LeafInput: []byte{byte(i)}})
		bad(err, "add")
	}
	svc := l.Service
	x, y := int64(symrt.Choose("a", int(n))), int64(1+symrt.Choose("b", int(n)))
	op := symrt.Choose("op", 4)
	req := &pb.LogInclusionProofRequest{Log: l.Log, LeafIndex: x, TreeSize: y}
	if op == 2 && symrt.Choose("byhash", 2) == 1 {
		req.MtlHash = ref.Leaf([]byte{byte(x)})
	}
	read(s, func() (proto.Message, bool, error) {
		switch op {
		case 0:
			symrt.Assume(x == 0)
			r, e := svc.LogTreeHash(henv.Ctx, &pb.LogTreeHashRequest{Log: l.Log, TreeSize: y})
			return r, r == nil, e
		case 1:
			symrt.Assume(x < y)
			r, e := svc.LogFetchEntries(henv.Ctx, &pb.LogFetchEntriesRequest{Log: l.Log, First: x, Last: y})
			return r, r == nil, e
		case 2:
			symrt.Assume(x < y)
			r, e := svc.LogInclusionProof(henv.Ctx, req)
			return r, r == nil, e
		}
		symrt.Assume(symrt.And(x > 0, x < y))
		r, e := svc.LogConsistencyProof(henv.Ctx, &pb.LogConsistencyProofRequest{Log: l.Log, FromSize: x, TreeSize: y})
		return r, r == nil, e
	})
}

// read does f without and with a failure: it is reported or makes no difference.
func read(s *store, f func() (r proto.Message, none bool, err error)) {
	want, none, err := f()
	bad(err, "a read fails although the storage does not")
	symrt.Assert(!none, "a read without answer")
	s.left = symrt.Choose("at", int(symrt.Param("steps", 30)))
	got, none, err := f()
	symrt.Assert(s.hit || err == nil, "a read fails although the storage does not")
	if err != nil {
		symrt.Assert(none, "an answer along with a failure")
		symrt.Reach("failed")
		return
	}
	symrt.Assert(!none && proto.Equal(want, got), "a failure of the storage changes an answer")
	symrt.Reach("checked")
}

type op struct {
	kind int
	key  int
	val  []byte
}

func (o *op) do(vm *verifiable.Map, ks [][]byte) error {
	var err error
	switch o.kind {
	case 0:
		_, err = vm.Set(henv.Ctx, ks[o.key], &pb.LeafData{LeafInput: o.val})
	case 1:
		_, err = vm.Delete(henv.Ctx, ks[o.key])
	case 2:
		_, err = vm.Update(henv.Ctx, ks[o.key], &pb.LeafData{LeafInput: o.val}, ref.Leaf([]byte("w")))
	}
	return err
}

func (o *op) apply(vals [][]byte) [][]byte {
	n := append([][]byte(nil), vals...)
	switch o.kind {
	case 0:
		n[o.key] = o.val
	case 1:
		n[o.key] = nil
	case 2:
		if string(n[o.key]) == "w" {
			n[o.key] = o.val
		}
	}
	return n
}

func mapIs(vm *verifiable.Map, ks [][]byte, hist [][][]byte) {
	n := len(hist) - 1
	h, err := vm.TreeHead(henv.Ctx, verifiable.Head)
	bad(err, "map head")
	symrt.Assert(h.MutationLog.TreeSize == int64(n), "the size of the map")
	tl, err := vm.TreeHeadLog().TreeHead(henv.Ctx, verifiable.Head)
	bad(err, "tree head log")
	symrt.Assert(tl.TreeSize == int64(n), "the size of the tree head log")
	for s := 1; s <= n; s++ {
		var kvs []*ref.KV
		for i, v := range hist[s] {
			if len(v) > 0 {
				kvs = append(kvs, &ref.KV{Path: ref.KeyPath(ks[i]), Leaf: ref.Leaf(v)})
			}
		}
		h, err := vm.TreeHead(henv.Ctx, int64(s))
		bad(err, "map head")
		symrt.Assert(bytes.Equal(h.RootHash, ref.MapRoot(kvs)), "the root of the map")
		for i, k := range ks {
			g, err := vm.Get(henv.Ctx, k, int64(s))
			bad(err, "get")
			symrt.Assert(bytes.Equal(g.GetValue().GetLeafInput(), hist[s][i]), "a value of the map")
		}
	}
	if n > 0 {
		st, err := vm.VerifiedLatestMapState(henv.Ctx, nil)
		bad(err, "map state")
		bad(vm.VerifyMap(henv.Ctx, nil, st, nil, func(context.Context, int64, []byte, *pb.LeafData) error { return nil }), "audit")
	}
}

// MapSet: a mutation that fails at any step of its storage is reported and
// leaves no trace; done again it is as if done once.
func MapSet() {
	s, acc := newStore()
	vm := acc.VerifiableMap("map")
	ks := [][]byte{[]byte("k0"), []byte("k1")}
	n := symrt.Choose("n", int(symrt.Param("n", 2))+1)
	hist := [][][]byte{make([][]byte, 2)}
	for i := 0; i < n; i++ {
		o := &op{key: i % 2, val: []byte("w")}
		bad(o.do(vm, ks), "set")
		hist = append(hist, o.apply(hist[i]))
	}
	o := &op{kind: symrt.Choose("kind", 3), key: symrt.Choose("key", 2), val: symrt.Bytes("v", 1)}
	max := int(symrt.Param("steps", 70))
	s.left = symrt.Choose("at", max)
	if s.left == max-1 {
		s.left = 1 << 30 // no failure
	}
	err := o.do(vm, ks)
	s.left = -1
	symrt.Assert(s.hit || err == nil, "a mutation fails although the storage does not")
	if err != nil {
		symrt.Reach("failed")
		mapIs(vm, ks, hist)
		bad(o.do(vm, ks), "mutation after a failure")
	}
	hist = append(hist, o.apply(hist[n]))
	mapIs(vm, ks, hist)
	symrt.Reach("checked")
}

// MapRead: a read that meets a failure reports it and gives nothing.
func MapRead() {
	s, acc := newStore()
	vm := acc.VerifiableMap("map")
	ks := [][]byte{[]byte("k0"), []byte("k1"), []byte("none")}
	n := int(symrt.Param("n", 3))
	for i := 0; i < n; i++ {
		o := &op{key: i % 2, val: []byte{byte(i)}}
		bad(o.do(vm, ks), "set")
	}
	size := int64(symrt.Choose("size", n+1))
	op, key := symrt.Choose("op", 2), ks[symrt.Choose("key", 3)]
	read(s, func() (proto.Message, bool, error) {
		if op == 0 {
			r, e := vm.TreeHead(henv.Ctx, size)
			return r, r == nil, e
		}
		r, e := vm.Get(henv.Ctx, key, size)
		return r, r == nil, e
	})
}
